-------------------------------- MODULE Mass ---------------------------------
(* Many of the same.  Dealer, Broker and Session follow every single request; *)
(* here they are only counted, so that there can be as many as in use: a net  *)
(* of places that hold numbers of things, and transitions that move n of them *)
(* at once.  An event is n requests of one kind to the real object, and its   *)
(* reply the number of those that were answered as one alone would be, and,   *)
(* where ids are handed out, the number of different new ones.                *)
(*                                                                            *)
(*   dealer    register  n procedures     unregister  n of them               *)
(*             taken     n of them by another session                         *)
(*             call      n calls          answer      n of them               *)
(*             stray     n answers by a session that was not asked            *)
(*             again     n second answers                                     *)
(*             gone, orphan  calls of procedures given up, or whose owner left *)
(*             parts     n parts of one call                                  *)
(*             progress  n progressive results of one call                    *)
(*             leave     the owner of n procedures, asked calls times, leaves *)
(*             dropped   n answers by it                                      *)
(*   broker    attach    n sessions       subscribe   n of them to one topic  *)
(*             publish   to n recipients  unsubscribe n of them               *)
(*             depart    n of them                                            *)
(*             topics    n subscriptions of one session, to different topics  *)
(*             still     n of which are heard                                 *)
(*             unheard   n of which end, and are heard no more                *)
(*             ack       n acknowledged publications                          *)
(*   session   send, reply, twice         n requests of type t, their replies *)
(*                                        and second replies                  *)
(*             invoke, yield, yielded     n invocations, answers and second   *)
(*                                        answers                             *)
(*             event, ended   n events for what is live, and no longer live   *)
(*             fail      n requests that cannot be sent, and replies to them  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Requests == {"CALL", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"}
Places == {"reg", "free", "orphan", "open", "over", "lost", "att", "sub", "live", "inv", "yielded", "ended", "topic"}
          \cup {"waits " \o t : t \in Requests} \cup {"had " \o t : t \in Requests}
Empty == [p \in Places |-> 0]

None == {}
\* <<what is needed and stays, what is taken, what there is then>>
Net(e) ==
    CASE e.op = "register" -> <<None, None, {"reg"}>>
      [] e.op = "taken" -> <<{"reg"}, None, None>>
      [] e.op = "call" -> <<None, None, {"open"}>>
      [] e.op = "stray" -> <<{"open"}, None, None>>
      [] e.op = "answer" -> <<None, {"open"}, {"over"}>>
      [] e.op = "again" -> <<{"over"}, None, None>>
      [] e.op = "unregister" -> <<None, {"reg"}, {"free"}>>
      [] e.op = "gone" -> <<{"free"}, None, None>>
      [] e.op = "leave" -> <<None, {"reg"}, {"orphan"}>>
      [] e.op = "orphan" -> <<{"orphan"}, None, None>>
      [] e.op = "dropped" -> <<{"lost"}, None, None>>
      [] e.op = "attach" -> <<None, None, {"att"}>>
      [] e.op = "subscribe" -> <<None, {"att"}, {"sub"}>>
      [] e.op = "unsubscribe" -> <<None, {"sub"}, {"att"}>>
      [] e.op = "depart" -> <<None, {"sub"}, None>>
      [] e.op = "topics" -> <<None, None, {"topic"}>>
      [] e.op = "still" -> <<{"topic"}, None, None>>
      [] e.op = "unheard" -> <<None, {"topic"}, None>>
      [] e.op = "send" -> <<IF e.t = "UNSUBSCRIBE" THEN {"live"} ELSE IF e.t = "UNREGISTER" THEN {"reg"} ELSE None,
                            None, {"waits " \o e.t}>>
      [] e.op = "reply" -> <<None,
                             {"waits " \o e.t} \cup (IF e.t = "UNSUBSCRIBE" THEN {"live"} ELSE IF e.t = "UNREGISTER" THEN {"reg"} ELSE None),
                             {"had " \o e.t} \cup (IF e.t = "SUBSCRIBE" THEN {"live"} ELSE IF e.t = "REGISTER" THEN {"reg"}
                                                   ELSE IF e.t = "UNSUBSCRIBE" THEN {"ended"} ELSE None)>>
      [] e.op = "twice" -> <<{"had " \o e.t}, None, None>>
      [] e.op = "invoke" -> <<{"reg"}, None, {"inv"}>>
      [] e.op = "yield" -> <<None, {"inv"}, {"yielded"}>>
      [] e.op = "yielded" -> <<{"yielded"}, None, None>>
      [] e.op = "event" -> <<{"live"}, None, None>>
      [] e.op = "ended" -> <<{"ended"}, None, None>>
      [] OTHER -> <<None, None, None>>

\* there are n of what it takes
Enabled(m, e) ==
    /\ \A p \in Net(e)[1] \cup Net(e)[2] : m[p] >= e.n
    /\ e.op \in {"call", "parts", "progress"} => m.reg > 0
    /\ e.op = "publish" => m.sub = e.n
    /\ e.op = "leave" => m.open >= e.calls

After(m, e) ==
    [p \in Places |-> m[p] + (IF p \in Net(e)[3] THEN e.n ELSE 0) - (IF p \in Net(e)[2] THEN e.n ELSE 0)
                           + (IF e.op # "leave" THEN 0 ELSE IF p = "lost" THEN e.calls ELSE IF p = "open" THEN -e.calls ELSE 0)]

Fresh(e) == IF e.op \in {"register", "call", "topics", "ack"} THEN e.n ELSE IF e.op \in {"parts", "progress"} THEN 1 ELSE 0
Want(e) == [k |-> "mass", right |-> e.n, fresh |-> Fresh(e)]

-----------------------------------------------------------------------------

\* the properties that speak of this kind of request
About(e) ==
    CASE e.op \in {"register", "taken", "unregister"} -> {"C05"}
      [] e.op \in {"call", "gone"} -> {"C01"}
      [] e.op = "stray" -> {"C02"}
      [] e.op = "answer" -> {"C02", "C03"}
      [] e.op \in {"again", "progress"} -> {"C03"}
      [] e.op = "parts" -> {"C04"}
      [] e.op \in {"leave", "orphan", "dropped"} -> {"C06"}
      [] e.op = "attach" -> {"C11"}
      [] e.op \in {"subscribe", "unsubscribe", "topics", "still", "unheard"} -> {"C09"}
      [] e.op = "publish" -> {"C07"}
      [] e.op = "ack" -> {"C08"}
      [] e.op = "depart" -> {"C10"}
      [] e.op \in {"send", "reply", "twice"} -> {"C13"}
      [] e.op \in {"invoke", "event", "ended"} -> {"C14"}
      [] e.op \in {"yield", "yielded"} -> {"C15"}
      [] e.op = "fail" -> {"C16"}

Judge(e) ==
    LET w == Want(e)
    IN IF e.r.k # w.k THEN {"kind"}
       ELSE {x \in {"right", "fresh"} : e.r[x] # w[x]}
Broke(e) == LET j == Judge(e) IN (IF j \cap {"kind", "right"} # {} THEN About(e) ELSE {}) \cup (IF j \cap {"kind", "fresh"} # {} /\ Fresh(e) > 0 THEN {"C12"} ELSE {})
=============================================================================
