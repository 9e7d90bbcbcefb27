---------------------------------- MODULE Build ----------------------------------
(* The build script, the compilers it meets, and Cargo's decision to run it again.                                   *)
(*                                                                                                                    *)
(* A configuration deviates from an ordinary one in at most MaxDev aspects. Under it the bootstrap variable changes   *)
(* MaxHist times; after every change Cargo runs the script again only if the script asked for it. The script runs in  *)
(* steps (plain probe, probe with the variable, version), leaving probe files in its output folder between them.      *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxDev, MaxHist

VARIABLES cfg, devs, boot, pc, files, asked, seen, cached, hist
\* asked: what the script has decided so far; seen: what a caching wrapper remembers; cached: directives of the last run
vars == <<cfg, devs, boot, pc, files, asked, seen, cached, hist>>

Versions == {<<"rustc", "1", "80", ".1 (aaa 2024-07-18)">>, <<"rustc", "1", "81", ".0 (aaa)">>, <<"rustc", "1", "9", ".0">>, <<"rustc", "1", "64", ".0 (a)">>,
             <<"rustc", "1", "65", ".0-nightly (a)">>, <<"rustc", "1", "100", ".0-beta.1">>, <<"rustc", "1", "81", ".0-dev">>, <<"rustc", "2", "0", ".0">>, <<"rustc", "1", "x", ".0">>,
             <<"clippy", "1", "64", ".0">>, <<"rustc", "1", "-5", ".0">>, <<"", "", "", "">>, <<"rustc", "11", "5", ".0">>, <<"rustc", "1", "", "">>, <<"binary", "", "", "">>,
             <<"rustc", "1", "64", ".1.2.3">>}
Default == [stage |-> "unset", chan |-> "stable", api |-> "new", wrap |-> "unset", ws |-> "unset", target |-> "unset", flags |-> "unset", std |-> "on",
            version |-> <<"rustc", "1", "99", ".1 (abc 2026-01-01)">>, dir |-> "clean"]
Aspects == <<"stage", "chan", "api", "wrap", "ws", "target", "flags", "std", "version", "dir">>
Values == [stage |-> {"0", "2", ""}, chan |-> {"nightly", "missing"}, api |-> {"old", "none"}, wrap |-> {"empty", "pass", "deny", "enable", "cache"},
           ws |-> {"empty", "pass", "deny", "enable"}, target |-> {"known", "nostd", "unknown"}, flags |-> {"empty", "plain", "space", "deny", "restrict", "two"},
           std |-> {"off"}, version |-> Versions, dir |-> {"stale", "vanish", "space"}]
Boots == {"unset", "", "0", "1", "thiserror", "other", "a,thiserror"}

\* ---- compilers ------------------------------------------------------------------------------------------------------
Cheat(b) == b \in {"1", "thiserror", "a,thiserror"}
\* Does a crate that uses generic member access compile, with the wrappers, target and flags in use and b as the variable?
Compiles(c, b) == /\ c.chan # "missing" /\ c.api = "new"
                  /\ (c.chan = "nightly" \/ Cheat(b) \/ c.wrap = "enable" \/ c.ws = "enable")
                  /\ "deny" \notin {c.wrap, c.ws} /\ c.target # "unknown" /\ c.flags # "deny"
Numbers == [n \in {"9", "64", "65", "80", "81", "99", "100"} |-> CASE n = "9" -> 9 [] n = "64" -> 64 [] n = "65" -> 65 [] n = "80" -> 80 [] n = "81" -> 81
                                                                [] n = "99" -> 99 [] n = "100" -> 100]
Readable(c) == c.chan # "missing" /\ c.version[1] = "rustc" /\ c.version[2] = "1" /\ c.version[3] \in DOMAIN Numbers
Minor(c) == Numbers[c.version[3]]

\* ---- what the outcome has to be ---------------------------------------------------------------------------------------
\* A nightly compiler is taken to support unstable features whatever the variable says.
Gma(c, b) == c.stage = "unset" /\ (Compiles(c, "unset") \/ (b # "unset" /\ Compiles(c, b)))
StdFallback(c) == c.std = "off" /\ Readable(c) /\ Minor(c) < 81
NoBacktraceType(c) == Readable(c) /\ Minor(c) < 65

\* ---- transitions --------------------------------------------------------------------------------------------------------
None == [gma |-> FALSE, rerun |-> TRUE, std |-> FALSE, nobt |-> FALSE]
Init == /\ cfg = Default /\ devs = 0 /\ boot = "unset" /\ pc = "configure" /\ files = {} /\ asked = None /\ seen = {} /\ cached = None /\ hist = <<>>
\* Aspects change in order, so that every configuration is reached once.
RECURSIVE IndexOf(_, _)
IndexOf(x, i) == IF Aspects[i] = x THEN i ELSE IndexOf(x, i + 1)
Last == LET ch == {i \in 1..Len(Aspects) : cfg[Aspects[i]] # Default[Aspects[i]]} IN IF ch = {} THEN 0 ELSE CHOOSE i \in ch : \A j \in ch : j <= i
Vary == /\ pc = "configure" /\ devs < MaxDev
        /\ \E i \in (Last + 1)..Len(Aspects) : \E v \in Values[Aspects[i]] : cfg' = [cfg EXCEPT ![Aspects[i]] = v]
        /\ devs' = devs + 1 /\ UNCHANGED <<boot, pc, files, asked, seen, cached, hist>>
\* Cargo: first run, or the variable changed and the script asked to be run again on that.
Change == /\ pc \in {"configure", "idle"} /\ Len(hist) < MaxHist /\ \E b \in Boots : (pc = "idle" => b # boot) /\ boot' = b
          /\ IF pc = "configure" \/ cached.rerun
             THEN /\ pc' = "plain" /\ files' = (IF cfg.dir = "stale" /\ pc = "configure" THEN {"stale"} ELSE files) /\ asked' = None /\ hist' = hist
             ELSE /\ pc' = "idle" /\ UNCHANGED <<files, asked>> /\ hist' = Append(hist, [boot |-> boot', ran |-> FALSE, out |-> cached])
          /\ UNCHANGED <<cfg, devs, seen, cached>>
\* One probe: the compiler writes its output below the probe folder, the script removes it. A caching wrapper
\* may answer with what it saw before; it tells apart what the probe reads, the variable included.
Answer(b) == IF cfg.wrap = "cache" /\ b \in seen THEN TRUE ELSE Compiles(cfg, b)
Probe(b) == /\ seen' = (IF cfg.wrap = "cache" /\ Compiles(cfg, b) THEN seen \cup {b} ELSE seen)
            /\ files' = {}
Plain == /\ pc = "plain"
         /\ IF cfg.stage # "unset" THEN /\ UNCHANGED <<seen, files>> /\ asked' = asked /\ pc' = (IF boot = "unset" THEN "version" ELSE "boot")
            ELSE /\ Probe("unset") /\ IF Answer("unset") THEN asked' = [asked EXCEPT !.gma = TRUE, !.rerun = FALSE] /\ pc' = "version"
                                      ELSE asked' = asked /\ pc' = (IF boot = "unset" THEN "version" ELSE "boot")
         /\ UNCHANGED <<cfg, devs, boot, cached, hist>>
Boot == /\ pc = "boot"
        /\ IF cfg.stage # "unset" THEN UNCHANGED <<seen, files>> ELSE Probe(boot)
        /\ IF cfg.stage = "unset" /\ Answer(boot) THEN asked' = [asked EXCEPT !.gma = TRUE] ELSE asked' = [asked EXCEPT !.rerun = boot # "1"]
        /\ pc' = "version" /\ UNCHANGED <<cfg, devs, boot, cached, hist>>
Version == /\ pc = "version" /\ cached' = [asked EXCEPT !.std = StdFallback(cfg), !.nobt = NoBacktraceType(cfg)] /\ pc' = "idle"
           /\ hist' = Append(hist, [boot |-> boot, ran |-> TRUE, out |-> cached'])
           /\ UNCHANGED <<cfg, devs, boot, files, asked, seen>>
           /\ (Len(hist') = MaxHist => PrintT("CASE " \o ToJson([cfg |-> cfg, hist |-> hist'])))
Idle == /\ pc = "idle" /\ Len(hist) = MaxHist /\ ~hist[Len(hist)].ran /\ pc' = "done" /\ UNCHANGED <<cfg, devs, boot, files, asked, seen, cached, hist>>
        /\ PrintT("CASE " \o ToJson([cfg |-> cfg, hist |-> hist]))
Next == Vary \/ Change \/ Plain \/ Boot \/ Version \/ Idle

\* ---- properties ------------------------------------------------------------------------------------------------------------
\* What Cargo believes is what the script would say now, however the variable came to be what it is.
Fresh == pc \in {"idle", "done"} => cached.gma = Gma(cfg, boot)
NothingLeft == pc \in {"idle", "done"} => (files = {} \/ (cfg.dir = "stale" /\ cfg.stage # "unset"))
\* The script does not ask for more than it needs: never if the plain probe succeeds.
Modest == pc = "idle" /\ cfg.stage = "unset" /\ Compiles(cfg, "unset") => ~cached.rerun
OptOut == pc = "idle" /\ boot \in {"0", "other", ""} /\ ~Compiles(cfg, "unset") => ~cached.gma
OptIn == pc = "idle" /\ boot \in {"1", "thiserror"} /\ Compiles(cfg, boot) /\ cfg.stage = "unset" => cached.gma
Nested == pc = "idle" /\ cfg.stage # "unset" => ~cached.gma
Unreadable == pc = "idle" /\ ~Readable(cfg) => ~cached.std /\ ~cached.nobt
Old == pc = "idle" /\ cached.nobt /\ cfg.std = "off" => cached.std
=============================================================================
