// C02: routing along outgoing links.

// outcome of the latest evaluation of an expression (value, error) and of a link's expression
ghost #xval [expression.Expr] any
ghost #xerr [expression.Expr] error
// the iteration index seen by it
ghost #xidx [expression.Expr] any
modset XEVAL = #xval, #xerr, #xidx
ghost #lres [*definition.Link] bool
ghost #lerr [*definition.Link] error

define wIdx(w) = if "iteration" in w && w["iteration"] is *simple.DoWhile then box((w["iteration"] as *simple.DoWhile).Index) else if "iteration" in w && w["iteration"] is map[string]any then (w["iteration"] as map[string]any)["index"] else nil
define scopeIdx(s) = if s is *instance.WorkingDataScope then wIdx((s as *instance.WorkingDataScope).workingData) else nil

iface (expression.Expr).Eval(e, scope) -> (v, err) {
  may_panic
  sets #xval[e] := v
  sets #xerr[e] := err
  sets #xidx[e] := scopeIdx(scope)
}

define linkOK(l) = l.expr == nil || (#xerr[l.expr] == nil && coerce.ToBool(#xval[l.expr]).err == nil)

func (*instance.TaskInst).EvalLink(ti, link) -> (r, err) {
  ensures [C02] "a failing expression is reported, and only then" err == nil ==> r == (link.expr == nil || (#xerr[link.expr] == nil && tobool(#xval[link.expr])))
  ensures [C02] "the error of the expression is reported" link.expr != nil && #xerr[link.expr] != nil ==> err != nil
  ensures [C02] "no error without a reason" link.expr == nil ==> err == nil
  sets #lres[link] := r
  sets #lerr[link] := err
  modifies @XEVAL
}

func (*instance.LinkInst).SetStatus(li, status) {
  ensures [C02,C03,C05] "the link has the given status" li.status == status
  ensures [C16] "the status is recorded" rec1(11) && #rv[old(#rn)] == box(li) && #ri[old(#rn)] == status
  modifies li.status, @TRACK, @COVER, all []*support.TransitionCoverage
}

func (*instance.TaskInst).GetToLinkInstances(ti) -> (r) {
  rlimit 100
  ensures [C01,C02,C03,C04,C05] "one link instance per outgoing link, in order" len(r) == len(ti.task.toLinks) && forall i int {r[i]} {ti.task.toLinks[i]} :: 0 <= i && i < len(r) ==> r[i] is *instance.LinkInst && (ti.task.toLinks[i]).id in ti.flowInst.linkInsts && (r[i] as *instance.LinkInst) == ti.flowInst.linkInsts[(ti.task.toLinks[i]).id]
  ensures [C01,C02,C03,C04,C05] "recorded links stay" forall k int {k in ti.flowInst.linkInsts} :: old(k in ti.flowInst.linkInsts) ==> k in ti.flowInst.linkInsts && ti.flowInst.linkInsts[k] == old(ti.flowInst.linkInsts[k])
  ensures [C01,C02,C03,C04,C05] "added links are undecided" forall k int {k in ti.flowInst.linkInsts} :: !old(k in ti.flowInst.linkInsts) && k in ti.flowInst.linkInsts ==> (ti.flowInst.linkInsts[k]).status == 0 && fresh(ti.flowInst.linkInsts[k])
  ensures [C02,C03] "the link instance belongs to its link" forall i int {r[i]} {ti.task.toLinks[i]} :: 0 <= i && i < len(r) ==> (r[i] as *instance.LinkInst).link == ti.task.toLinks[i]
  ensures "link ids" forall k int {ti.flowInst.linkInsts[k]} :: k in ti.flowInst.linkInsts ==> ti.flowInst.linkInsts[k].id == k
  assumes "a link instance is filed under the id of its link" forall k int {ti.flowInst.linkInsts[k]} :: k in ti.flowInst.linkInsts ==> ti.flowInst.linkInsts[k] != nil && ti.flowInst.linkInsts[k].id == k
  assumes "a link instance belongs to the link with that id" forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && (ti.task.toLinks[i]).id in ti.flowInst.linkInsts ==> ti.flowInst.linkInsts[(ti.task.toLinks[i]).id].link == ti.task.toLinks[i]
  assumes "the outgoing links have distinct ids" forall i int, j int {ti.task.toLinks[i], ti.task.toLinks[j]} :: 0 <= i && i < j && j < len(ti.task.toLinks) ==> (ti.task.toLinks[i]).id != (ti.task.toLinks[j]).id
  modifies ti.flowInst.linkInsts[*], @TRACK
  loopinv <c []model.LinkInstance> forall j int {c[j]} :: 0 <= j && j < $i ==> c[j] is *instance.LinkInst && (ti.task.toLinks[j]).id in ti.flowInst.linkInsts && (c[j] as *instance.LinkInst) == ti.flowInst.linkInsts[(ti.task.toLinks[j]).id]
  loopinv forall k int {k in ti.flowInst.linkInsts} :: old(k in ti.flowInst.linkInsts) ==> k in ti.flowInst.linkInsts && ti.flowInst.linkInsts[k] == old(ti.flowInst.linkInsts[k])
  loopinv forall k int {k in ti.flowInst.linkInsts} :: !old(k in ti.flowInst.linkInsts) && k in ti.flowInst.linkInsts ==> (ti.flowInst.linkInsts[k]).status == 0 && fresh(ti.flowInst.linkInsts[k])
  loopinv forall k int {ti.flowInst.linkInsts[k]} :: k in ti.flowInst.linkInsts ==> ti.flowInst.linkInsts[k] != nil && ti.flowInst.linkInsts[k].id == k
  loopinv forall j int {ti.task.toLinks[j]} :: 0 <= j && j < len(ti.task.toLinks) && (ti.task.toLinks[j]).id in ti.flowInst.linkInsts ==> ti.flowInst.linkInsts[(ti.task.toLinks[j]).id].link == ti.task.toLinks[j]
}

func simple.SortTaskEntries(es) {
  ensures [C02,C05] "sorted by enter code, stable, and the same entries" forall i int {es[i]} :: 0 <= i && i < len(es) ==> 0 <= #perm[i] && #perm[i] < len(es) && #pinv[#perm[i]] == i && (let p := #perm[i] :: es[i] == old(es[p]))
  ensures [C02,C05] "no entry is lost" forall i int {old(es[i])} {#pinv[i]} :: 0 <= i && i < len(es) ==> 0 <= #pinv[i] && #pinv[i] < len(es) && #perm[#pinv[i]] == i && es[#pinv[i]] == old(es[i])
  ensures [C02,C05] "ascending enter codes" forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> (es[i]).EnterCode <= (es[j]).EnterCode
  ensures [C02,C05] "entries with equal codes keep their order" forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) && (es[i]).EnterCode == (es[j]).EnterCode ==> #perm[i] < #perm[j]
  modifies es[*], #perm, #pinv
}

define enterCode(t) = if t == definition.LtDependency then 0 else if t == definition.LtExprOtherwise then 2 else if t == definition.LtLabel then (if support.GetPrioritizeExprTask() then 1 else 3) else if t == definition.LtExpression then (if support.GetPrioritizeExprTask() then 3 else 1) else 4

// the latest verdict of finalising a task: tell the flow, tasks to enter, error
ghost #notify bool
ghost #es []*model.TaskEntry
ghost #verr error

// links that are taken regardless of the otherwise rule
define takenNow(l) = l.linkType == definition.LtDependency || l.linkType == definition.LtLabel || l.linkType == definition.LtExpression && #lres[l]
define linkInstOf(ti, i) = ti.flowInst.linkInsts[(ti.task.toLinks[i]).id]

func (*simple.TaskBehavior).Done(tb, ctx) -> (notify, es, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  assumes "link types are the documented ones" let ti := ctx as *instance.TaskInst :: forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) ==> 0 <= (ti.task.toLinks[i]).linkType && (ti.task.toLinks[i]).linkType <= 4
  assumes "the outgoing links have distinct ids" let ti := ctx as *instance.TaskInst :: forall i int, j int {ti.task.toLinks[i], ti.task.toLinks[j]} :: 0 <= i && i < j && j < len(ti.task.toLinks) ==> (ti.task.toLinks[i]).id != (ti.task.toLinks[j]).id
  ensures [C02,C04] "the task is done" (ctx as *instance.TaskInst).status == model.TaskStatusDone
  ensures [C02] "the flow is told exactly when there are no outgoing links" let ti := ctx as *instance.TaskInst :: notify == (len(ti.task.toLinks) == 0)
  ensures [C02] "one entry per outgoing link" let ti := ctx as *instance.TaskInst :: err == nil ==> len(es) == len(ti.task.toLinks)
  ensures [C02] "an error is reported when an expression fails" let ti := ctx as *instance.TaskInst :: err == nil ==> forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && (ti.task.toLinks[i]).linkType == definition.LtExpression ==> #lerr[ti.task.toLinks[i]] == nil
  ensures [C02] "dependency, label, expression and error links" let ti := ctx as *instance.TaskInst :: err == nil ==> forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && (ti.task.toLinks[i]).linkType != definition.LtExprOtherwise ==> linkInstOf(ti, i).status == (if takenNow(ti.task.toLinks[i]) then 2 else 1)
  ensures [C02] "otherwise link" let ti := ctx as *instance.TaskInst :: err == nil ==> forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && (ti.task.toLinks[i]).linkType == definition.LtExprOtherwise && (forall j int {ti.task.toLinks[j]} :: i < j && j < len(ti.task.toLinks) ==> (ti.task.toLinks[j]).linkType != definition.LtExprOtherwise) ==> linkInstOf(ti, i).status == (if (exists j int {ti.task.toLinks[j]} :: 0 <= j && j < len(ti.task.toLinks) && (ti.task.toLinks[j]).linkType == definition.LtExpression) && !(exists j int {ti.task.toLinks[j]} :: 0 <= j && j < len(ti.task.toLinks) && (ti.task.toLinks[j]).linkType == definition.LtExpression && #lres[ti.task.toLinks[j]]) then 2 else 1)
  ensures [C02] "every successor once, with the priority of its link" let ti := ctx as *instance.TaskInst :: err == nil && len(es) > 0 ==> forall i int {es[i]} :: 0 <= i && i < len(es) ==> 0 <= #perm[i] && #perm[i] < len(es) && #pinv[#perm[i]] == i && (es[i]).Task == (ti.task.toLinks[#perm[i]]).toTask && (es[i]).EnterCode == (if linkInstOf(ti, #perm[i]).status == 2 then enterCode((ti.task.toLinks[#perm[i]]).linkType) else 4)
  ensures [C02] "priority order" err == nil && len(es) > 0 ==> forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> (es[i]).EnterCode <= (es[j]).EnterCode
  ensures [C02] "definition order within a priority" err == nil && len(es) > 0 ==> forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) && (es[i]).EnterCode == (es[j]).EnterCode ==> #perm[i] < #perm[j]
  ensures [C02] "no other link changes" let ti := ctx as *instance.TaskInst :: forall li *instance.LinkInst {li.status} :: li.status == old(li.status) || (exists i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && li == linkInstOf(ti, i))
  ensures [C02,C04] "new entries" forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i])
  ensures [C02,C04] "distinct entries" forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> es[i] != es[j]
  sets #notify := notify
  sets #es := es
  sets #verr := err
  modifies (ctx as *instance.TaskInst).status, (ctx as *instance.TaskInst).flowInst.linkInsts[*], all instance.LinkInst.status, @TRACK, @COVER, all []*support.TransitionCoverage, #perm, #pinv, #lres, #lerr, @XEVAL

  loopinv <es phi []*model.TaskEntry> len(es) == $i
  loopinv <es phi []*model.TaskEntry> forall j int {es[j]} :: 0 <= j && j < $i ==> es[j] != nil && fresh(es[j]) && (es[j]).Task == ((ctx as *instance.TaskInst).task.toLinks[j]).toTask
  loopinv <es phi []*model.TaskEntry> forall j int, k int {es[j], es[k]} :: 0 <= j && j < k && k < $i ==> es[j] != es[k]
  loopinv <s []model.LinkInstance> let ti := ctx as *instance.TaskInst :: forall j int {s[j]} {ti.task.toLinks[j]} :: 0 <= j && j < $i ==> (s[j] as *instance.LinkInst).status == (if (ti.task.toLinks[j]).linkType != definition.LtExprOtherwise && takenNow(ti.task.toLinks[j]) then 2 else 1)
  loopinv <es phi []*model.TaskEntry> let ti := ctx as *instance.TaskInst :: forall j int {es[j]} {ti.task.toLinks[j]} :: 0 <= j && j < $i ==> (es[j]).EnterCode == (if (ti.task.toLinks[j]).linkType != definition.LtExprOtherwise && takenNow(ti.task.toLinks[j]) then enterCode((ti.task.toLinks[j]).linkType) else 4)
  loopinv let ti := ctx as *instance.TaskInst :: forall j int {ti.task.toLinks[j]} :: 0 <= j && j < $i && (ti.task.toLinks[j]).linkType == definition.LtExpression ==> #lerr[ti.task.toLinks[j]] == nil
  loopinv <he phi bool> let ti := ctx as *instance.TaskInst :: he <==> exists j int {ti.task.toLinks[j]} :: 0 <= j && j < $i && (ti.task.toLinks[j]).linkType == definition.LtExpression
  loopinv <fo phi bool> let ti := ctx as *instance.TaskInst :: fo <==> exists j int {ti.task.toLinks[j]} :: 0 <= j && j < $i && (ti.task.toLinks[j]).linkType == definition.LtExpression && #lres[ti.task.toLinks[j]]
  loopinv <ol phi model.LinkInstance> let ti := ctx as *instance.TaskInst :: ol == nil <==> forall j int {ti.task.toLinks[j]} :: 0 <= j && j < $i ==> (ti.task.toLinks[j]).linkType != definition.LtExprOtherwise
  loopinv <ol phi model.LinkInstance, oe phi *model.TaskEntry, es phi []*model.TaskEntry> let ti := ctx as *instance.TaskInst :: ol != nil ==> exists j int {ti.task.toLinks[j]} {es[j]} :: 0 <= j && j < $i && ol is *instance.LinkInst && (ol as *instance.LinkInst) == linkInstOf(ti, j) && oe == es[j] && (ti.task.toLinks[j]).linkType == definition.LtExprOtherwise && (forall k int {ti.task.toLinks[k]} :: j < k && k < $i ==> (ti.task.toLinks[k]).linkType != definition.LtExprOtherwise)
  loopinv let ti := ctx as *instance.TaskInst :: forall li *instance.LinkInst {li.status} :: li.status == old(li.status) || (exists i int {ti.task.toLinks[i]} :: 0 <= i && i < $i && li == linkInstOf(ti, i))
}
