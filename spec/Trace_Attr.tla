----------------------------- MODULE Trace_Attr ------------------------------
(* The recorded history of one frame and one Manager after another.          *)
EXTENDS TraceBase, Attributes
VARIABLES l, fr, ds, dim
vars == <<l, fr, ds, dim>>
Without(f, n) == [m \in DOMAIN f \ {n} |-> f[m]]
History(e) ==
    CASE e.op = "begin" -> fr' = <<>> /\ ds' = e.ds /\ dim' = e.dim
      [] e.op \in {"put", "create", "write"} -> fr' = (e.name :> e.s) @@ fr /\ UNCHANGED <<ds, dim>>
      [] e.op = "del" -> fr' = Without(fr, e.name) /\ UNCHANGED <<ds, dim>>
      [] e.op = "wipe" -> fr' = <<>> /\ UNCHANGED <<ds, dim>>
      [] e.op = "addd" -> ds' = Append(ds, e.d) /\ e.nb = Len(ds') /\ UNCHANGED <<fr, dim>>
      [] e.op = "cleard" -> ds' = <<>> /\ e.nb = 0 /\ UNCHANGED <<fr, dim>>
      [] OTHER -> FALSE
Init == l = 1 /\ fr = <<>> /\ ds = <<>> /\ dim = 3
=============================================================================
