------------------------------ MODULE JFigures -----------------------------
(* Conformance of recorded figures to Figures (P27).                         *)
(* A line of a figure is recorded by the quantities it agrees with, point by *)
(* point; those come from another measurement of the same waveform and from  *)
(* the waveform.  "panel": one figure.  "all": the diagnostic figure, one    *)
(* entry per visible axes.  label: kind of extremum its label names.         *)
(* hidden: parts of the data are outside the shown range.                    *)
EXTENDS Judge, FiniteSets
LOCAL F == INSTANCE Figures WITH MaxOps <- 0, Emit <- FALSE, method <- "", zero <- FALSE, level <- 0, one <- FALSE, two <- FALSE,
                                 have <- {}, ops <- <<>>, drawn <- {}, todo <- <<>>, grid <- <<>>, pc <- ""
Set(x) == {x[i] : i \in 1..Len(x)}
Want(r, p) == LET w == F!Curves(p, r.one /\ r.vline, r.orbit) IN w \ (IF r.noomega /\ p = "avg" THEN {"omega"} ELSE {})
Peri == {"env@peri", "omega@peri", "amp@peri", "res_amp@peri", "res_omega@peri", "data@peri", "avg@peri", "ratio@peri"}
Apo == {"env@apo", "omega@apo", "amp@apo", "res_amp@apo", "res_omega@apo", "data@apo", "avg@apo", "ratio@apo"}
Complete(want, lines) == \A c \in want : \E i \in 1..Len(lines) : c \in Set(lines[i].q)
Only(want, lines) == \A i \in 1..Len(lines) : Set(lines[i].q) \cap want # {}
Fits(want, lines) == Complete(want, lines) /\ Only(want, lines) /\ Len(lines) = Cardinality(want)
BadLabel(lines) == \E i \in 1..Len(lines) : (lines[i].label = "peri" /\ Set(lines[i].q) \cap Peri = {})
                                          \/ (lines[i].label = "apo" /\ Set(lines[i].q) \cap Apo = {})
PanelFigure(r) == LET want == Want(r, r.panel) IN
    {k \in {"missing-curve", "wrong-curve", "repeated-curve", "label", "hidden", "returned"} :
       \/ k = "missing-curve" /\ ~Complete(want, r.lines)
       \/ k = "wrong-curve" /\ ~Only(want, r.lines)
       \/ k = "repeated-curve" /\ Only(want, r.lines) /\ Len(r.lines) > Cardinality(want)
       \/ k = "label" /\ BadLabel(r.lines)
       \/ k = "hidden" /\ r.hidden
       \/ k = "returned" /\ ~r.ret}
All(r) == LET P == F!Diagnostic(r.method, r.zero) IN
    {k \in {"missing-panel", "wrong-panel", "repeated-panel", "label", "hidden", "columns"} :
       \/ k = "missing-panel" /\ \E p \in P : \A i \in 1..Len(r.axes) : ~Fits(Want(r, p), r.axes[i].lines)
       \/ k = "wrong-panel" /\ \E i \in 1..Len(r.axes) : \A p \in P : ~Fits(Want(r, p), r.axes[i].lines)
       \/ k = "repeated-panel" /\ Len(r.axes) # Cardinality(P)
       \/ k = "label" /\ \E i \in 1..Len(r.axes) : BadLabel(r.axes[i].lines)
       \/ k = "hidden" /\ \E i \in 1..Len(r.axes) : r.axes[i].hidden
       \/ k = "columns" /\ r.columns # (IF r.two THEN 2 ELSE 1)}
Verdict(r) == IF r.kind = "fails" THEN {"fails"} ELSE IF r.kind = "panel" THEN PanelFigure(r) ELSE All(r)
=============================================================================
