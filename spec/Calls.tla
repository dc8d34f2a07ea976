-------------------------------- MODULE Calls --------------------------------
(* Calls of the public API: what they do right away, and the work they leave. *)
EXTENDS ModuleGraph

(* Expected outcome of starting an operation: new state, node, exception.   *)
Res(s, n, err) == [st |-> s, n |-> n, err |-> err]
FromR(r) == Res(r.st, r.n, "")

ActOf(it) == CASE it.k = "exclude" -> ExcludeAct
               [] it.k = "alias" -> AliasAct(it.to)
               [] it.k = "virtual" -> VirtualAct(it.to)
               [] it.k = "refs" -> ImplyAct(it.refs)

Begin(W, st, op) ==
    CASE op.op = "nop" -> Res(st, NoName, "")
      [] op.op = "exclude" ->
           IF op.form = "str" THEN Res(st, NoName, "TypeError")
           ELSE Res(OpExclude(st, op.names), NoName, "")
      [] op.op = "imply" ->
           LET one(s, it) == OpImply(s, it.n, ActOf(it)) IN Res(FoldLeft(one, st, op.items), NoName, "")
      [] op.op = "posthook" -> Res([st EXCEPT !.post = Append(@, op.rules)], NoName, "")
      [] op.op = "misshook" -> Res([st EXCEPT !.miss = Append(@, op.rules)], NoName, "")
      [] op.op = "module" ->
           IF ValidName(op.n) THEN FromR(OpModule(W, st, op.n)) ELSE Res(st, NoName, "ValueError")
      [] op.op = "script" ->
           LET e == ScriptErr(W, st, op.path) IN
           IF e # "" THEN Res(st, NoName, e) ELSE FromR(OpScript(W, st, op.path))
      [] op.op = "source" ->
           LET b == W.bodies[op.body] IN
           IF b.bad # "" THEN Res(st, NoName, "SyntaxError")
           ELSE Res(OpSourceInfos(W, st, AstInfos(W, b)), NoName, "")
      [] op.op = "dist" ->
           LET k == DistNamed(W, op.name) IN
           IF k = 0 THEN Res(st, NoName, "ValueError") ELSE FromR(OpDist(W, st, k))
      [] op.op = "ctx" -> Res(CtxCalls(W, st, op.calls), NoName, "")
=============================================================================
