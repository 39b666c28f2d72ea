INIT TraceInit
NEXT TraceNext
VIEW TraceView
