// C05: errors.

define hasErrLink(ti) = exists i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && (ti.task.toLinks[i]).linkType == definition.LtError
define isErr(l) = l.linkType == definition.LtError

func (*simple.TaskBehavior).Error(tb, ctx, e) -> (handled, es) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires [C05] "the task is marked failed" (ctx as *instance.TaskInst).status == model.TaskStatusFailed
  assumes "the outgoing links have distinct ids" let ti := ctx as *instance.TaskInst :: forall i int, j int {ti.task.toLinks[i], ti.task.toLinks[j]} :: 0 <= i && i < j && j < len(ti.task.toLinks) ==> (ti.task.toLinks[i]).id != (ti.task.toLinks[j]).id
  ensures [C05] "handled exactly if there is an error link" handled == hasErrLink(ctx as *instance.TaskInst)
  ensures [C05] "exactly the error links are taken" let ti := ctx as *instance.TaskInst :: handled ==> forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) ==> linkInstOf(ti, i).status == (if isErr(ti.task.toLinks[i]) then 2 else 1)
  ensures [C05] "one entry per outgoing link" let ti := ctx as *instance.TaskInst :: handled ==> len(es) == len(ti.task.toLinks)
  ensures [C05] "each successor, the ones on error links first" let ti := ctx as *instance.TaskInst :: handled ==> forall i int {es[i]} :: 0 <= i && i < len(es) ==> 0 <= #perm[i] && #perm[i] < len(es) && #pinv[#perm[i]] == i && (es[i]).Task == (ti.task.toLinks[#perm[i]]).toTask && (es[i]).EnterCode == (if isErr(ti.task.toLinks[#perm[i]]) then 0 else 4)
  ensures [C05] "no entries if not handled" !handled ==> len(es) == 0
  ensures [C05] "without error links no link is decided" let ti := ctx as *instance.TaskInst :: !handled ==> forall li *instance.LinkInst {li.status} :: !fresh(li) ==> li.status == old(li.status)
  ensures [C05] "no other link changes" let ti := ctx as *instance.TaskInst :: forall li *instance.LinkInst {li.status} :: li.status == old(li.status) || (exists i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && li == linkInstOf(ti, i))
  ensures [C05,C04] "new entries" forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i])
  ensures [C05,C04] "distinct entries" forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> es[i] != es[j]
  sets #handled := handled
  sets #es := es
  modifies (ctx as *instance.TaskInst).flowInst.linkInsts[*], all instance.LinkInst.status, @TRACK, @COVER, all []*support.TransitionCoverage, #perm, #pinv

  loopinv <h bool> h ==> true
  loopinv let ti := ctx as *instance.TaskInst :: forall j int {ti.task.toLinks[j]} :: 0 <= j && j < $i ==> !isErr(ti.task.toLinks[j])
  loopinv <es []*model.TaskEntry> len(es) == $i
  loopinv <es []*model.TaskEntry> forall j int {es[j]} :: 0 <= j && j < $i ==> es[j] != nil && fresh(es[j]) && (es[j]).Task == ((ctx as *instance.TaskInst).task.toLinks[j]).toTask && (es[j]).EnterCode == (if isErr((ctx as *instance.TaskInst).task.toLinks[j]) then 0 else 4)
  loopinv <es []*model.TaskEntry> forall j int, k int {es[j], es[k]} :: 0 <= j && j < k && k < $i ==> es[j] != es[k]
  loopinv <s []model.LinkInstance> let ti := ctx as *instance.TaskInst :: forall j int {s[j]} {ti.task.toLinks[j]} :: 0 <= j && j < $i ==> (s[j] as *instance.LinkInst).status == (if isErr(ti.task.toLinks[j]) then 2 else 1)
  loopinv let ti := ctx as *instance.TaskInst :: forall li *instance.LinkInst {li.status} :: li.status == old(li.status) || (exists i int {ti.task.toLinks[i]} :: 0 <= i && i < $i && li == linkInstOf(ti, i))
}
