// C03: skipped tasks.

func (*simple.TaskBehavior).Skip(tb, ctx) -> (notify, es, prop) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  assumes "the outgoing links have distinct ids" let ti := ctx as *instance.TaskInst :: forall i int, j int {ti.task.toLinks[i], ti.task.toLinks[j]} :: 0 <= i && i < j && j < len(ti.task.toLinks) ==> (ti.task.toLinks[i]).id != (ti.task.toLinks[j]).id
  ensures [C03,C04] "the task is marked skipped" (ctx as *instance.TaskInst).status == model.TaskStatusSkipped
  ensures [C03,C04] "the flow is told exactly when there are no outgoing links" let ti := ctx as *instance.TaskInst :: notify == (len(ti.task.toLinks) == 0)
  ensures [C03,C04] "entries are returned to be entered" !prop
  ensures [C03] "one entry per outgoing link" let ti := ctx as *instance.TaskInst :: len(es) == len(ti.task.toLinks)
  ensures [C03] "in definition order, each to the successor of its link" let ti := ctx as *instance.TaskInst :: forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && (es[i]).Task == (ti.task.toLinks[i]).toTask
  ensures [C03] "every outgoing link is marked skipped" let ti := ctx as *instance.TaskInst :: forall i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) ==> linkInstOf(ti, i).status == 3
  ensures [C03] "no other link changes" let ti := ctx as *instance.TaskInst :: forall li *instance.LinkInst {li.status} :: li.status == old(li.status) || (exists i int {ti.task.toLinks[i]} :: 0 <= i && i < len(ti.task.toLinks) && li == linkInstOf(ti, i))
  ensures [C03,C04] "new entries" forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i])
  ensures [C03,C04] "distinct entries" forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> es[i] != es[j]
  sets #notify := notify
  sets #es := es
  sets #verr := nil
  modifies (ctx as *instance.TaskInst).status, (ctx as *instance.TaskInst).flowInst.linkInsts[*], all instance.LinkInst.status, @TRACK, @COVER, all []*support.TransitionCoverage

  loopinv <es []*model.TaskEntry> len(es) == $i
  loopinv <es []*model.TaskEntry> forall j int {es[j]} :: 0 <= j && j < $i ==> es[j] != nil && fresh(es[j]) && (es[j]).Task == ((ctx as *instance.TaskInst).task.toLinks[j]).toTask
  loopinv <es []*model.TaskEntry> forall j int, k int {es[j], es[k]} :: 0 <= j && j < k && k < $i ==> es[j] != es[k]
  loopinv <s []model.LinkInstance> let ti := ctx as *instance.TaskInst :: forall j int {s[j]} {ti.task.toLinks[j]} :: 0 <= j && j < $i ==> (s[j] as *instance.LinkInst).status == 3
  loopinv let ti := ctx as *instance.TaskInst :: forall li *instance.LinkInst {li.status} :: li.status == old(li.status) || (exists i int {ti.task.toLinks[i]} :: 0 <= i && i < $i && li == linkInstOf(ti, i))
}
