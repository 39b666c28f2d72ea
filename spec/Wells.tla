------------------------------- MODULE Wells --------------------------------
(***************************************************************************)
(* Wells without a grid: measured depth datums, deviation surveys,          *)
(* trajectories (given by points or made from a survey by the minimum       *)
(* curvature method), wellbore frames, marker frames, and wells and logs    *)
(* imported from text.                                                      *)
(*                                                                         *)
(* The state o holds what every object was made from, by a name for each;   *)
(* opening the model again from file changes nothing in it.  Measured       *)
(* depths are whole numbers, asked about in quarters; locations are kept    *)
(* in thousandths, directions and displacements in ten thousandths, angles  *)
(* in degrees (multiples of thirty).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

WInit == [o |-> <<>>]

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
Tol(a, b, d) == Abs(a - b) <= d
Near3(a, b, d) == Len(a) = 3 /\ Len(b) = 3 /\ \A i \in 1..3 : Tol(a[i], b[i], d)
Rest(a, b) == a % b
\* division rounding towards minus infinity, for a positive divisor
Div(a, b) == a \div b
Has(o, n) == n \in DOMAIN o
Put(o, n, r) == (n :> r) @@ o

---------------------------------------------------------------------------
(* Minimum curvature *)

\* sine of a multiple of thirty degrees
Sin(d) == LET k == Div(Rest(d, 360), 30) IN
          CASE k \in {0, 6} -> 0 [] k \in {1, 5} -> 5000 [] k \in {2, 4} -> 8660 [] k = 3 -> 10000
            [] k \in {7, 11} -> -5000 [] k \in {8, 10} -> -8660 [] k = 9 -> -10000
Cos(d) == Sin(d + 90)
\* down is positive, azimuth clockwise from the y axis
Direction(az, inc) == <<Div(Sin(inc) * Sin(az), 10000), Div(Sin(inc) * Cos(az), 10000), Cos(inc)>>
Dot(u, w) == Div(u[1] * w[1] + u[2] * w[2] + u[3] * w[3], 10000)
\* cosine of the angle between the directions of two stations
Bend(a1, i1, a2, i2) == Dot(Direction(a1, i1), Direction(a2, i2))
\* for the angles b there can be between such directions: cosine of b, and half the ratio factor, tan(b / 2) / b
Halves == {
    <<-8750, 14691>>, <<-8660, 14255>>, <<-8080, 12219>>, <<-7500, 10938>>, <<-6495, 9524>>, <<-6250, 9269>>, <<-5335, 8498>>, <<-5000, 8270>>,
    <<-4330, 7876>>, <<-3995, 7703>>, <<-2500, 7080>>, <<-2165, 6965>>, <<-1250, 6685>>, <<-580, 6506>>, <<0, 6366>>, <<580, 6237>>,
    <<1250, 6101>>, <<2165, 5933>>, <<2500, 5877>>, <<3995, 5648>>, <<4330, 5601>>, <<5000, 5513>>, <<5335, 5471>>, <<6250, 5363>>,
    <<6495, 5336>>, <<7500, 5230>>, <<8080, 5172>>, <<8660, 5117>>, <<8750, 5109>>, <<8995, 5087>>, <<9665, 5028>>, <<10000, 5000>>}
Half(c) == (CHOOSE x \in Halves : Tol(x[1], c, 20))[2]
Plain(a1, i1, a2, i2) == Bend(a1, i1, a2, i2) > -8800
Chord(a1, i1, a2, i2) ==
  LET u == Direction(a1, i1)  w == Direction(a2, i2)  f == Half(Dot(u, w))
  IN [k \in 1..3 |-> Div((u[k] + w[k]) * f, 10000)]
Convert(x, from, to) == IF from = to THEN x ELSE IF from = "ft" THEN Div(x * 3048, 10000) ELSE Div(x * 10000, 3048)
InCrs(v, uom, c) == <<Convert(v[1], uom, c.xy), Convert(v[2], uom, c.xy), (IF c.down THEN 1 ELSE -1) * Convert(v[3], uom, c.z)>>
Hop(sv, c, i) == InCrs(Chord(sv.az[i], sv.inc[i], sv.az[i + 1], sv.inc[i + 1]), sv.uom, c)

---------------------------------------------------------------------------
(* Locations along a trajectory: straight lines between the knots, and from *)
(* the datum to the first knot; q is in quarters                            *)

Between(p, w, a, n) == [k \in 1..3 |-> p[k] + Div((w[k] - p[k]) * a, n)]
LastOf(q) == q[Len(q)]
AtMd(tr, q) ==
  IF q < 0 \/ q > 4 * LastOf(tr.md) THEN <<>>
  ELSE IF q <= 4 * tr.md[1] THEN (IF tr.md[1] = 0 THEN tr.pts[1] ELSE Between(tr.dloc, tr.pts[1], q, 4 * tr.md[1]))
  ELSE LET i == CHOOSE x \in 1..(Len(tr.md) - 1) : 4 * tr.md[x] < q /\ q <= 4 * tr.md[x + 1]
       IN Between(tr.pts[i], tr.pts[i + 1], q - 4 * tr.md[i], 4 * (tr.md[i + 1] - tr.md[i]))

Milli(p) == [k \in 1..3 |-> 1000 * p[k]]
\* the whole number h with h * h = dx * dx + dy * dy
Level(dx, dy) == CHOOSE h \in 0..200 : h * h = dx * dx + dy * dy
\* vertical hundredths in the horizontal units
Fall(dz, c) == (IF c.down THEN 1 ELSE -1) * (Convert(100 * dz, c.z, c.xy))
TiltOk(g, p, w, c) ==
  LET h == 100 * Level(w[1] - p[1], w[2] - p[2])
      z == Fall(w[3] - p[3], c)
  IN /\ g[2] >= 0
     /\ Abs(g[1] * h - g[2] * z) <= 60 * (h + Abs(z))
     /\ (z > 0 => g[1] > 0) /\ (z < 0 => g[1] < 0) /\ (z = 0 => Tol(g[1], 0, 1))

(* Interval of a frame, from nought, and the way through it; at a node      *)
(* between two intervals either will do                                     *)
Intervals(fr, q) ==
  IF q < 4 * fr.md[1] THEN {<<-1, 0>>}
  ELSE IF q > 4 * LastOf(fr.md) THEN {<<-1, 10000>>}
  ELSE {<<i - 1, Div((q - 4 * fr.md[i]) * 10000, 4 * (fr.md[i + 1] - fr.md[i]))>> :
          i \in {x \in 1..(Len(fr.md) - 1) : 4 * fr.md[x] <= q /\ q <= 4 * fr.md[x + 1]}}

WithInterp == {"horizon", "fault", "geobody"}
RowInterp(r, col) == IF r.type \in WithInterp /\ col THEN r.interp ELSE ""
FirstWith(rows, ty, n) == LET I == {i \in 1..Len(rows) : rows[i].type = ty /\ rows[i].interp = n}
                      IN IF I = {} THEN -1 ELSE (CHOOSE x \in I : \A y \in I : x <= y) - 1

\* thousandths of a whole md in one unit, in another
Depth(x, from, to) == IF from = to THEN 1000 * x ELSE IF from = "ft" THEN Div(x * 3048, 10) ELSE Div(x * 1000000, 3048) * 10

---------------------------------------------------------------------------
DatumOf(o, e) == IF e.datum = "" THEN [loc |-> e.pts[1], ref |-> "mean sea level", crs |-> e.crs] ELSE o[e.datum]
\* trajectories imported from a table of wells
FileDatum(w) == IF w.md[1] = 0 THEN w.pts[1] ELSE <<w.pts[1][1], w.pts[1][2], 0>>
FromFile(w, e) == [kind |-> "traj", md |-> w.md, pts |-> [i \in 1..Len(w.pts) |-> Milli(w.pts[i])], whole |-> w.pts, uom |-> e.uom, domain |-> e.domain,
                   dloc |-> Milli(FileDatum(w)), dref |-> "mean sea level", datum |-> "", crs |-> e.crs, interp |-> "t:" \o w.name,
                   survey |-> "", title |-> w.name, tang |-> FALSE]
WellNames(e) == {e.wells[i].name : i \in 1..Len(e.wells)}
FileWell(e, n) == e.wells[CHOOSE i \in 1..Len(e.wells) : e.wells[i].name = n]

Flown(o, e) == LET sv == o[e.survey]  d == o[sv.datum] IN
  [kind |-> "traj", md |-> sv.md, pts |-> e.obs.pts, whole |-> <<>>, uom |-> sv.uom, domain |-> e.domain, dloc |-> Milli(d.loc), dref |-> d.ref,
   datum |-> sv.datum, crs |-> d.crs, interp |-> e.interp, survey |-> e.survey, title |-> IF e.title = "" THEN sv.title ELSE e.title, tang |-> e.tang]
Given(o, e) == LET d == DatumOf(o, e) IN
  [kind |-> "traj", md |-> e.md, pts |-> [i \in 1..Len(e.pts) |-> Milli(e.pts[i])], whole |-> e.pts, uom |-> e.uom, domain |-> e.domain, dloc |-> Milli(d.loc),
   dref |-> d.ref, datum |-> e.datum, crs |-> d.crs, interp |-> e.interp, survey |-> "", title |-> e.title, tang |-> e.tang]
Smooth(o, e) == LET tr == o[e.from] IN
  [tr EXCEPT !.pts = e.obs.pts, !.md = <<>>, !.whole = <<>>, !.title = e.title]

Frames(o, n) == {f \in DOMAIN o : o[f].kind = "frame" /\ o[f].traj = n}

SamePts(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near3(a[i], b[i], 1)

TrajClauses(tr, g, o, n) ==
     (IF g.md = tr.md THEN {} ELSE {"md"})
  \cup (IF SamePts(g.pts, tr.pts) THEN {} ELSE {"points"})
  \cup (IF g.uom = tr.uom /\ g.domain = tr.domain /\ g.n = Len(tr.md) THEN {} ELSE {"uom"})
  \cup (IF g.start = tr.md[1] /\ g.finish = LastOf(tr.md) THEN {} ELSE {"range"})
  \cup (IF Near3(g.dloc, tr.dloc, 1) /\ g.dref = tr.dref /\ (tr.datum = "" \/ g.datum = tr.datum) THEN {} ELSE {"datum"})
  \cup (IF g.crs = tr.crs THEN {} ELSE {"crs"})
  \cup (IF g.interp = tr.interp THEN {} ELSE {"interpretation"})
  \cup (IF g.survey = tr.survey THEN {} ELSE {"survey"})
  \cup (IF g.title = tr.title THEN {} ELSE {"title"})
  \cup (IF g.tang = tr.tang THEN {} ELSE {"tangents"})
  \cup (IF RangeOf(g.frames) = Frames(o, n) /\ Len(g.frames) = Cardinality(Frames(o, n)) THEN {} ELSE {"frames"})

SurveyClauses(sv, g) ==
     (IF g.md = sv.md /\ g.n = Len(sv.md) THEN {} ELSE {"md"})
  \cup (IF g.az = sv.az /\ g.inc = sv.inc THEN {} ELSE {"angles"})
  \cup (IF g.uom = sv.uom /\ g.final = sv.final THEN {} ELSE {"uom"})
  \cup (IF Near3(g.first, Milli(sv.first), 0) THEN {} ELSE {"first_station"})
  \cup (IF g.datum = sv.datum THEN {} ELSE {"datum"})
  \cup (IF g.interp = sv.interp THEN {} ELSE {"interpretation"})
  \cup (IF g.title = sv.title THEN {} ELSE {"title"})

CurveClauses(o, e) ==
  LET sv == o[e.survey]  c == o[o[sv.datum].crs]  g == e.obs IN
     (IF Len(g.hops) = Len(sv.md) - 1 /\ \A i \in 1..Len(g.hops) : Near3(g.hops[i], Hop(sv, c, i), 40) THEN {} ELSE {"minimum_curvature"})
  \cup (IF Near3(g.pts[1], Milli(sv.first), 0) THEN {} ELSE {"first_station"})

SplineClauses(tr, e) ==
  LET g == e.obs  m == Len(g.pts) IN
     (IF Len(g.at) = Len(tr.pts) /\ (\A i \in 1..Len(g.at) : g.at[i] \in 1..m) /\ (\A i \in 1..(Len(g.at) - 1) : g.at[i + 1] - g.at[i] >= e.least)
         /\ g.at[1] = 1 /\ LastOf(g.at) = m /\ \A i \in 1..Len(g.at) : Near3(g.pts[g.at[i]], tr.pts[i], 1)
      THEN {} ELSE {"knots"})
  \cup (IF Len(g.md) = m /\ Len(g.steps) = m - 1 /\ g.md[1] = 1000 * tr.md[1] /\ (\A i \in 1..(m - 1) : Tol(g.md[i + 1] - g.md[i], g.steps[i], 2))
         /\ g.finish = g.md[m] /\ g.start = g.md[1]
      THEN {} ELSE {"spline_md"})
  \cup (IF g.interp = tr.interp THEN {} ELSE {"interpretation"})

MarkerClauses(mf, tr, g) ==
     (IF Len(g.rows) = Len(mf.rows) /\ \A i \in 1..Len(g.rows) :
           LET a == g.rows[i]  b == mf.rows[i] IN a.md = b.md /\ a.type = b.type /\ a.title = b.title /\ a.interp = RowInterp(b, mf.col) /\ a.index = i - 1
      THEN {} ELSE {"rows"})
  \cup (IF \A i \in 1..Len(g.rows) : i <= Len(mf.rows) => Near3(g.rows[i].xyz, AtMd(tr, 4 * mf.rows[i].md), 3) THEN {} ELSE {"locations"})
  \cup (IF g.title = mf.title /\ g.traj = mf.traj THEN {} ELSE {"title"})

Fine(e) == e.res.k = "ok"
Bad1(c, n) == IF c THEN {} ELSE {n}

WBad(s, e) ==
  LET o == s.o IN
  IF ~Fine(e) THEN {"raised"}
  ELSE CASE e.op \in {"crs", "datum", "survey", "interp", "frame", "markers", "reopen"} -> {}
    [] e.op = "seen_datum" -> Bad1(Near3(e.obs.loc, Milli(o[e.id].loc), 0) /\ e.obs.ref = o[e.id].ref /\ e.obs.crs = o[e.id].crs, "datum")
    [] e.op = "same" -> LET a == o[e.a]  b == o[e.b] IN Bad1(e.obs = (a.loc = b.loc /\ a.ref = b.ref /\ a.crs = b.crs), "same_datum")
    [] e.op = "seen_survey" -> SurveyClauses(o[e.id], e.obs)
    [] e.op = "fly" -> CurveClauses(o, e)
    [] e.op = "traj" -> {}
    [] e.op = "seen_traj" -> TrajClauses(o[e.id], e.obs, o, e.id)
    [] e.op = "at" -> LET x == AtMd(o[e.id], e.q) IN Bad1((x = <<>> /\ e.obs = <<>>) \/ Near3(e.obs, x, 3), "location")
    [] e.op = "tilt" -> LET tr == o[e.id]  c == o[tr.crs] IN
                        Bad1(Len(e.obs) = Len(tr.md) - 1 /\ \A i \in 1..Len(e.obs) : TiltOk(e.obs[i], tr.whole[i], tr.whole[i + 1], c), "inclinations")
    [] e.op = "spline" -> SplineClauses(o[e.from], e)
    [] e.op = "seen_frame" -> LET fr == o[e.id] IN
         Bad1(e.obs.md = fr.md, "md") \cup Bad1(e.obs.traj = fr.traj /\ e.obs.crs = o[fr.traj].crs, "trajectory")
         \cup Bad1(e.obs.interp = fr.interp, "interpretation") \cup Bad1(e.obs.title = fr.title, "title")
    [] e.op = "interval" -> Bad1(\E x \in Intervals(o[e.id], e.q) : e.obs[1] = x[1] /\ Tol(e.obs[2], x[2], 2), "interval")
    [] e.op = "seen_markers" -> MarkerClauses(o[e.id], o[o[e.id].traj], e.obs)
    [] e.op = "find" -> Bad1(e.obs = (IF o[e.id].col THEN FirstWith(o[e.id].rows, e.type, e.interp) ELSE -1), "find")
    [] e.op = "pick" -> Bad1(e.obs = (IF e.n < Len(o[e.id].rows) THEN o[e.id].rows[e.n + 1].title ELSE ""), "pick")
    [] e.op = "import" -> Bad1(\A k \in {"features", "interps", "trajs", "datums"} : RangeOf(e.obs[k]) = WellNames(e) /\ Len(e.obs[k]) = Cardinality(WellNames(e)), "import")
    [] e.op = "las" -> LET tr == o[e.traj] IN
         Bad1(Len(e.obs.md) = Len(e.md) /\ \A i \in 1..Len(e.md) : Tol(e.obs.md[i], Depth(e.md[i], e.unit, tr.uom), 11), "log_depths")
         \cup Bad1(e.obs.logs = e.logs, "logs") \cup Bad1(e.obs.interp = tr.interp, "interpretation")

WPost(s, e) ==
  LET o == s.o IN
  CASE e.op = "crs" -> [o |-> Put(o, e.id, [kind |-> "crs", down |-> e.down, xy |-> e.xy, z |-> e.z])]
    [] e.op = "datum" -> [o |-> Put(o, e.id, [kind |-> "datum", loc |-> e.loc, ref |-> e.ref, crs |-> e.crs])]
    [] e.op = "survey" -> [o |-> Put(o, e.id, [kind |-> "survey", datum |-> e.datum, md |-> e.md, az |-> e.az, inc |-> e.inc, uom |-> e.uom,
                                               first |-> e.first, final |-> e.final, interp |-> e.interp, title |-> e.title])]
    [] e.op = "fly" -> [o |-> Put(o, e.id, Flown(o, e))]
    [] e.op = "traj" -> [o |-> Put(o, e.id, Given(o, e))]
    [] e.op = "frame" -> [o |-> Put(o, e.id, [kind |-> "frame", traj |-> e.traj, md |-> e.md, interp |-> e.interp, title |-> e.title])]
    [] e.op = "markers" -> [o |-> Put(o, e.id, [kind |-> "markers", traj |-> e.traj, rows |-> e.rows, col |-> e.col, title |-> e.title])]
    [] e.op = "import" -> [o |-> [n \in WellNames(e) |-> FromFile(FileWell(e, n), e)] @@ o]
    [] e.op = "las" -> [o |-> Put(o, e.id, [kind |-> "frame", traj |-> e.traj, md |-> e.md, interp |-> o[e.traj].interp, title |-> "wellbore frame"])]
    [] OTHER -> s
=============================================================================
