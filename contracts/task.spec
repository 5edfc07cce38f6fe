define taskPosted(ti) = coreevent.HasListener("taskevent") ==> #pevn == old(#pevn) + 1 && #pevT == "taskevent" && (#pevV as *instance.taskEvent).status == eventOfTask(ti.status)
define flowPosted(inst) = coreevent.HasListener("flowevent") ==> #pevn == old(#pevn) + 1 && #pevT == "flowevent" && (#pevV as *instance.flowEvent).status == eventOfFlow(inst.status)
func instance.postTaskEvent(ti) {
  ensures [C21] "the event reports the status of the task" taskPosted(ti)
  modifies #pevn, #pevV, #pevT
}

func (*instance.TaskInst).SetStatus(ti, status) {
  ensures [C01,C02,C03,C04,C05] "the task has the given status" ti.status == status
  ensures [C21] "an event reports it" taskPosted(ti) && ti.status == status
  ensures [C16] "the status is recorded" rec1(8) && #rv[old(#rn)] == box(ti) && #ri[old(#rn)] == status
  modifies ti.status, @TRACK
}

func (*instance.Instance).FindOrCreateLinkData(inst, link) -> (li, created) {
  assumes "the link table is indexed by link id" forall k int {inst.linkInsts[k]} :: k in inst.linkInsts ==> inst.linkInsts[k] != nil && inst.linkInsts[k].id == k
  ensures [C01,C02,C03] "the link instance is the one in the table" li != nil && link.ID() in inst.linkInsts && inst.linkInsts[link.ID()] == li
  ensures [C01,C02,C03] "an existing one is returned unchanged" old(link.ID() in inst.linkInsts) ==> !created && li == old(inst.linkInsts[link.ID()])
  ensures [C01,C02,C03] "a new one is undecided" !old(link.ID() in inst.linkInsts) ==> created && fresh(li) && li.status == 0 && li.link == link && li.flowInst == inst && li.id == link.ID()
  ensures [C01,C02,C03] "no other entry changes" forall k int {k in inst.linkInsts} :: k != link.ID() ==> (k in inst.linkInsts) == old(k in inst.linkInsts) && inst.linkInsts[k] == old(inst.linkInsts[k])
  ensures [C16] "a new link is recorded" (created ==> rec1(10) && #rv[old(#rn)] == box(li) && #ri[old(#rn)] == 0) && (!created ==> norec())
  modifies inst.linkInsts[*], @TRACK
}

