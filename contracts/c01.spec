// C01: the join rule.

// status a flow instance records for a link: 0 (undecided) when it has no entry yet
define lstat(inst, l) = if l.id in inst.linkInsts then inst.linkInsts[l.id].status else 0

func (*instance.TaskInst).GetFromLinkInstances(ti) -> (r) {
  ensures [C01,C02,C03,C04,C05] "one link instance per incoming link, in order" len(r) == len(ti.task.fromLinks) && forall i int {r[i]} {ti.task.fromLinks[i]} :: 0 <= i && i < len(r) ==> r[i] is *instance.LinkInst && (ti.task.fromLinks[i]).id in ti.flowInst.linkInsts && (r[i] as *instance.LinkInst) == ti.flowInst.linkInsts[(ti.task.fromLinks[i]).id]
  ensures [C01,C02,C03,C04,C05] "recorded links stay" forall k int {k in ti.flowInst.linkInsts} :: old(k in ti.flowInst.linkInsts) ==> k in ti.flowInst.linkInsts && ti.flowInst.linkInsts[k] == old(ti.flowInst.linkInsts[k])
  ensures [C01,C02,C03,C04,C05] "added links are undecided" forall k int {k in ti.flowInst.linkInsts} :: !old(k in ti.flowInst.linkInsts) && k in ti.flowInst.linkInsts ==> (ti.flowInst.linkInsts[k]).status == 0 && fresh(ti.flowInst.linkInsts[k])
  modifies ti.flowInst.linkInsts[*], @TRACK
  loopinv <c []model.LinkInstance> forall j int {c[j]} :: 0 <= j && j < $i ==> c[j] is *instance.LinkInst && (ti.task.fromLinks[j]).id in ti.flowInst.linkInsts && (c[j] as *instance.LinkInst) == ti.flowInst.linkInsts[(ti.task.fromLinks[j]).id]
  loopinv forall k int {k in ti.flowInst.linkInsts} :: old(k in ti.flowInst.linkInsts) ==> k in ti.flowInst.linkInsts && ti.flowInst.linkInsts[k] == old(ti.flowInst.linkInsts[k])
  loopinv forall k int {k in ti.flowInst.linkInsts} :: !old(k in ti.flowInst.linkInsts) && k in ti.flowInst.linkInsts ==> (ti.flowInst.linkInsts[k]).status == 0 && fresh(ti.flowInst.linkInsts[k])
}

func (*simple.TaskBehavior).Enter(tb, ctx) -> (res) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  ensures [C01] "not ready while an incoming link is undecided" let ti := ctx as *instance.TaskInst :: (exists i int {ti.task.fromLinks[i]} :: 0 <= i && i < len(ti.task.fromLinks) && old(lstat(ti.flowInst, ti.task.fromLinks[i])) < 1) <==> res == model.ERNotReady
  ensures [C01] "ready if there are no incoming links or one was taken" let ti := ctx as *instance.TaskInst :: res == model.EREval <==> (forall i int {ti.task.fromLinks[i]} :: 0 <= i && i < len(ti.task.fromLinks) ==> old(lstat(ti.flowInst, ti.task.fromLinks[i])) >= 1) && (len(ti.task.fromLinks) == 0 || exists i int {ti.task.fromLinks[i]} :: 0 <= i && i < len(ti.task.fromLinks) && old(lstat(ti.flowInst, ti.task.fromLinks[i])) == 2)
  ensures [C01] "skipped if all are decided and none was taken" let ti := ctx as *instance.TaskInst :: res == model.ERSkip <==> len(ti.task.fromLinks) > 0 && (forall i int {ti.task.fromLinks[i]} :: 0 <= i && i < len(ti.task.fromLinks) ==> old(lstat(ti.flowInst, ti.task.fromLinks[i])) >= 1 && old(lstat(ti.flowInst, ti.task.fromLinks[i])) != 2)
  ensures [C01,C04] "the status agrees with the verdict" let ti := ctx as *instance.TaskInst :: ti.status == (if res == model.EREval then 20 else if res == model.ERSkip then 50 else 10)
  ensures [C01,C04] "the verdict is one of three" res == model.EREval || res == model.ERSkip || res == model.ERNotReady
  ensures [C01] "no link changes its status" let ti := ctx as *instance.TaskInst :: forall k int {k in ti.flowInst.linkInsts} :: (if k in ti.flowInst.linkInsts then (ti.flowInst.linkInsts[k]).status else 0) == old(if k in ti.flowInst.linkInsts then (ti.flowInst.linkInsts[k]).status else 0)
  modifies (ctx as *instance.TaskInst).status, (ctx as *instance.TaskInst).flowInst.linkInsts[*], @TRACK
  loopinv <s []model.LinkInstance> forall j int {s[j]} :: 0 <= j && j < $i ==> (s[j] as *instance.LinkInst).status >= 1
  loopinv <s []model.LinkInstance, sk bool> sk <==> forall j int {s[j]} :: 0 <= j && j < $i ==> (s[j] as *instance.LinkInst).status != 2
}
