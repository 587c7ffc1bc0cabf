------------------------------ MODULE IngestGen ------------------------------
(* Enumerates every configuration of the ingestion interface: the scenarios
   the harness fills with pixels and runs on the implementation. *)
EXTENDS Ingest, Json
VARIABLES s
Scenario == [src : {"array", "masked", "path", "hdu", "hdulist"}, given : {"none", "array", "file"},
             ext : BOOLEAN, guess : BOOLEAN, thresh : {0, 1, 5, 16}, level : {"flags", "weights"},
             borders : BOOLEAN, cropped : BOOLEAN, mwindow : BOOLEAN]
Sensible(x) ==
  /\ x.ext => x.src \in {"path", "hdulist"}
  /\ x.mwindow => x.given # "none" /\ (x.borders \/ x.cropped)
  \* a threshold only matters for mask files and extensions
  /\ x.thresh # 0 => x.given = "file" \/ UsesExtension(x.src, x.given, x.ext, x.guess)
  /\ x.level = "weights" => x.given = "file" \/ UsesExtension(x.src, x.given, x.ext, x.guess)
Init == s \in Scenario /\ Sensible(s) /\ PrintT("@@GEN " \o ToJson(s))
Next == UNCHANGED s
==============================================================================
