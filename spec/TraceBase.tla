------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded episodes of the real code.  T[ep] is one episode; T[ep].ev its
   events, each one call on the real code with its arguments and observed result. *)
EXTENDS Lat, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NONINT == 1073741824      \* what the recorder writes for "not an integer"
=============================================================================
