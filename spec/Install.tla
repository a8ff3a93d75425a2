-------------------------------- MODULE Install --------------------------------
(* The installer (install.sh): what it asks the release service for, in which  *)
(* order, and what it may do to the directory it installs to.  A step fails,   *)
(* delivers something wrong, or the installer is killed in it; nothing reaches *)
(* the directory unless every step before was sound.                           *)
(*                                                                             *)
(* case c: tag (asked for, "" for the latest), os, mach (what uname says),     *)
(* latest (the tag behind "latest"), tags (those that exist), have (the        *)
(* version on the PATH, "" for none), old ("none" | "old": what is in the      *)
(* directory), fault: step -> what goes wrong there ("" for nothing).          *)
EXTENDS Str, TLC

OsOf(s) == LET l == ToLower(s) IN
           IF \E p \in {"cygwin_nt", "mingw", "msys_nt"} : HasPrefix(l, p) THEN "windows" ELSE l
ArchOf(m) == CASE m = "x86_64" -> "amd64" [] m = "aarch64" -> "arm64" [] m \in {"x86", "i686", "i386"} -> "386"
               [] HasPrefix(m, "armv5") -> "armv5" [] HasPrefix(m, "armv6") -> "armv6" [] HasPrefix(m, "armv7") -> "armv7"
               [] OTHER -> m
Known(c) == /\ OsOf(c.os) \in {"linux", "darwin", "windows", "freebsd", "openbsd", "netbsd"}
            /\ ArchOf(c.mach) \in {"amd64", "arm64", "386", "armv5", "armv6", "armv7", "ppc64le", "s390x"}
\* the names the releases use
OsName(o) == CASE o = "darwin" -> "macOS" [] o = "linux" -> "Linux" [] o = "windows" -> "Windows" [] o = "freebsd" -> "Freebsd"
               [] o = "openbsd" -> "Openbsd" [] o = "netbsd" -> "Netbsd"
ArchName(a) == CASE a = "amd64" -> "x86_64" [] a = "386" -> "i386" [] OTHER -> a
NoV(t) == IF HasPrefix(t, "v") THEN From(t, 2) ELSE t
Base == "https://github.com/bab-sh/bab/releases/"
Archive(c, t) == "bab_" \o NoV(t) \o "_" \o OsName(OsOf(c.os)) \o "_" \o ArchName(ArchOf(c.mach)) \o (IF OsOf(c.os) = "windows" THEN ".zip" ELSE ".tar.gz")
Binary(c) == IF OsOf(c.os) = "windows" THEN "bab.exe" ELSE "bab"
Asked(c) == IF c.tag = "" THEN "latest" ELSE c.tag
Tag(c) == IF Asked(c) = "latest" THEN c.latest ELSE c.tag

\* state: at (the next step), dir ("none" | "old" | "new"), sound (archive matched its checksum), urls, exit ("" | "ok" | "fail" | "killed")
Start(c) == [at |-> "platform", dir |-> c.old, sound |-> FALSE, urls |-> <<>>, exit |-> ""]
Stop(s, how) == [s EXCEPT !.at = "end", !.exit = how]
Goto(s, to) == [s EXCEPT !.at = to]
Get(s, url) == [s EXCEPT !.urls = Append(@, url)]
Fault(c, st) == IF st \in DOMAIN c.fault THEN c.fault[st] ELSE ""

Step(c, s) ==
  CASE s.at = "platform" -> IF Known(c) THEN Goto(s, "release") ELSE Stop(s, "fail")
    [] s.at = "release"  -> LET u == Get(s, Base \o Asked(c)) IN
         IF Fault(c, "release") = "kill" THEN Stop(u, "killed")
         ELSE IF Fault(c, "release") # "" \/ ~Tag(c) \in c.tags THEN Stop(u, "fail")
         ELSE Goto(u, "compare")
    [] s.at = "compare"  -> IF c.have # "" /\ NoV(c.have) = NoV(Tag(c)) THEN Stop(s, "ok") ELSE Goto(s, "archive")
    [] s.at = "archive"  -> LET u == Get(s, Base \o "download/" \o Tag(c) \o "/" \o Archive(c, Tag(c))) IN
         IF Fault(c, "archive") = "kill" THEN Stop(u, "killed")
         ELSE IF Fault(c, "archive") \in {"status", "cut"} THEN Stop(u, "fail")
         ELSE Goto(u, "sums")
    [] s.at = "sums"     -> LET u == Get(s, Base \o "download/" \o Tag(c) \o "/checksums.txt") IN
         IF Fault(c, "sums") = "kill" THEN Stop(u, "killed")
         ELSE IF Fault(c, "sums") \in {"status", "cut"} THEN Stop(u, "fail")
         ELSE Goto(u, "verify")
    \* a wrong archive ("short", "tampered"), a checksum that is missing or another one, no means to compute it
    [] s.at = "verify"   -> IF Fault(c, "verify") = "kill" THEN Stop(s, "killed")
         ELSE IF Fault(c, "archive") # "" \/ Fault(c, "sums") # "" \/ Fault(c, "verify") # "" THEN Stop(s, "fail")
         ELSE Goto([s EXCEPT !.sound = TRUE], "unpack")
    [] s.at = "unpack"   -> IF Fault(c, "unpack") = "kill" THEN Stop(s, "killed")
         ELSE IF Fault(c, "unpack") # "" THEN Stop(s, "fail")     \* not an archive, no binary in it, unpacking fails
         ELSE Goto(s, "place")
    [] s.at = "place"    -> IF Fault(c, "place") # "" THEN Stop(s, "fail") ELSE Stop([s EXCEPT !.dir = "new"], "ok")

RECURSIVE Run(_, _)
Run(c, s) == IF s.at = "end" THEN s ELSE Run(c, Step(c, s))
Outcome(c) == Run(c, Start(c))
==============================================================================
