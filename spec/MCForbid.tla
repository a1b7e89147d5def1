------------------------------ MODULE MCForbid ------------------------------
(* Every forbidden fragment, and texts that come close to one, in every      *)
(* position of an expression.  Checked here: a text is illegal exactly if a  *)
(* fragment was put in, and legal texts have the meaning of the text.        *)
EXTENDS NrwalSession, Json
VARIABLES frag, pos, done
Frags == {"import x", "reimport x", "os.x", "sys.path", "x.__y", "x__.y", "evaluate", "my_exec", "eval", "exec_1", "cos.x"}
Near1 == {"impor", "reimported", "import_", "os", "sys", "x__y", "_x__", "eva", "exe", "Import", "EVAL", "eXec", "oss", "os_x", "ev_al", "im_port"}
Texts(f) == <<f, f \o " + 1", "2*" \o f, "x - (" \o f \o ")", "((" \o f \o ") * 2) / x", "np.abs(" \o f \o ")",
              "np.maximum(x, " \o f \o " * 2)", "x ** 2 - y * (3 + " \o f \o ")", "x+" \o f \o "-y",
              "  " \o f \o "  ", "x / y - np.minimum(np.abs(" \o f \o "), 2) + 1", "-" \o f>>
Init == frag \in Frags \cup Near1 /\ pos \in 1..12 /\ done = FALSE
T == Texts(frag)[pos]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<frag, pos>>
        /\ PrintT("@C " \o ToJson([s |-> T, bad |-> frag \in Frags, frag |-> frag]))
Exactly == IsIllegal(T) <=> frag \in Frags
Legal == frag \in Near1 => frag \in Names(Parse(T)) /\ Names(Parse(T)) \subseteq {"x", "y", frag}
Checked == done => Exactly /\ Legal
=============================================================================
