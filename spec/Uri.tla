-------------------------------- MODULE Uri --------------------------------
(* RFC 3986: recomposition (5.3) and resolution (5.2) of URI references, over *)
(* components. A reference is a record                                       *)
(*   [scheme, auth: <<>> or <<host, port>>, abs: BOOLEAN, segs: sequence of   *)
(*    path segments, query: <<>> or <<q>>, frag: <<>> or <<f>>]               *)
(* abs says the path starts with a slash; segs then are what follows it.      *)
(* The empty path is abs = FALSE, segs = <<>>.                                *)
(* Library conventions: same-scheme references may be relative (5.2.2, lax),  *)
(* "file" relative references fit a base without scheme; bases may themselves *)
(* be relative, and then leading ".." stay.                                   *)
EXTENDS Integers, Sequences, TLC

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

RECURSIVE JoinSegs(_, _)
JoinSegs(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN "/" ELSE "") \o s[i] \o JoinSegs(s, i + 1)
PathStr(u) == (IF u.abs THEN "/" ELSE "") \o JoinSegs(u.segs, 1)
Tail3(u) == (IF u.query = <<>> THEN "" ELSE "?" \o u.query[1]) \o (IF u.frag = <<>> THEN "" ELSE "#" \o u.frag[1])
FullPath(u) == PathStr(u) \o Tail3(u)
Host(u) == IF u.auth = <<>> THEN "" ELSE u.auth[1]
IsAbs(u) == (u.scheme /= "" /\ Host(u) /= "") \/ (u.scheme = "file" /\ u.abs)
Port(u) == IF u.auth /= <<>> /\ u.auth[2] /= "" THEN u.auth[2]
           ELSE IF u.scheme = "http" THEN "80" ELSE IF u.scheme = "https" THEN "443" ELSE "0"
Str(u) == (IF u.scheme = "" THEN "" ELSE u.scheme \o ":")
          \o (IF u.auth /= <<>> \/ IsAbs(u) THEN "//" ELSE "")
          \o (IF u.auth = <<>> THEN "" ELSE u.auth[1] \o (IF u.auth[2] = "" THEN "" ELSE ":" \o u.auth[2]))
          \o FullPath(u)

(* remove_dot_segments over segments *)
RECURSIVE Rds(_, _, _, _)
Rds(abs, segs, i, out) ==
  IF i > Len(segs) THEN out
  ELSE LET s == segs[i]
           last == i = Len(segs)
           o == IF s = ".." THEN (IF out /= <<>> /\ Last(out) /= ".." THEN Front(out)
                                  ELSE IF abs THEN out ELSE Append(out, s))
                ELSE IF s = "." THEN out ELSE Append(out, s)
           o2 == IF last /\ s \in {".", ".."} /\ (abs \/ o /= <<>>) THEN Append(o, "") ELSE o
       IN Rds(abs, segs, i + 1, o2)
Clean(u) == LET r == Rds(u.abs, u.segs, 1, <<>>) IN [u EXCEPT !.segs = r]

EmptyPath(u) == ~u.abs /\ u.segs = <<>>
IsEmpty(u) == u.scheme = "" /\ u.auth = <<>> /\ EmptyPath(u) /\ u.query = <<>> /\ u.frag = <<>>
Fits(b, r) == r.scheme = "" \/ r.scheme = b.scheme \/ (b.scheme = "" /\ r.scheme = "file")

Resolve(b, r) ==
  IF IsEmpty(r) THEN b
  ELSE IF IsAbs(r) \/ ~Fits(b, r) THEN Clean(r)
  ELSE IF r.auth /= <<>> THEN LET c == Clean(r) IN [c EXCEPT !.scheme = b.scheme]
  ELSE IF EmptyPath(r) THEN [b EXCEPT !.query = IF r.query = <<>> THEN b.query ELSE r.query, !.frag = r.frag]
  ELSE IF r.abs THEN LET c == Clean(r) IN [c EXCEPT !.scheme = b.scheme, !.auth = b.auth]
  ELSE LET merged == IF EmptyPath(b) /\ b.auth /= <<>> THEN [b EXCEPT !.abs = TRUE, !.segs = r.segs]
                     ELSE [b EXCEPT !.segs = (IF b.segs = <<>> THEN <<>> ELSE Front(b.segs)) \o r.segs]
           c == Clean(merged)
       IN [c EXCEPT !.query = r.query, !.frag = r.frag]
=============================================================================
