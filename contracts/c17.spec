// C17: saved instances and snapshots.

define attrsOK(b, i) = (forall k string {k in b.Attrs} {k in i.attrs} :: (b.Attrs != nil && k in b.Attrs) == (i.attrs != nil && k in i.attrs)) && (forall k string {b.Attrs[k]} :: b.Attrs != nil && k in b.Attrs ==> b.Attrs[k] == i.attrs[k])
define tasksOK(b, i) = (forall x int {b.Tasks[x]} :: 0 <= x && x < len(b.Tasks) ==> b.Tasks[x] != nil && b.Tasks[x].Id in i.taskInsts && b.Tasks[x].Status == i.taskInsts[b.Tasks[x].Id].status)
  && (forall k string {k in i.taskInsts} :: i.taskInsts != nil && k in i.taskInsts ==> exists x int {b.Tasks[x]} :: 0 <= x && x < len(b.Tasks) && b.Tasks[x].Id == k)
  && (forall x int, y int {b.Tasks[x], b.Tasks[y]} :: 0 <= x && x < y && y < len(b.Tasks) ==> b.Tasks[x].Id != b.Tasks[y].Id)
define linksOK(b, i) = (forall x int {b.Links[x]} :: 0 <= x && x < len(b.Links) ==> b.Links[x] != nil && b.Links[x].Id in i.linkInsts && b.Links[x].Status == i.linkInsts[b.Links[x].Id].status)
  && (forall k int {k in i.linkInsts} :: i.linkInsts != nil && k in i.linkInsts ==> exists x int {b.Links[x]} :: 0 <= x && x < len(b.Links) && b.Links[x].Id == k)
  && (forall x int, y int {b.Links[x], b.Links[y]} :: 0 <= x && x < y && y < len(b.Links) ==> b.Links[x].Id != b.Links[y].Id)

func instance.populateBaseSnapshot(i, b) {
  requires b.Attrs == nil && len(b.Tasks) == 0 && len(b.Links) == 0
  assumes "the tables hold tasks and links" forall k string {i.taskInsts[k]} :: i.taskInsts != nil && k in i.taskInsts ==> i.taskInsts[k] != nil
  assumes forall k int {i.linkInsts[k]} :: i.linkInsts != nil && k in i.linkInsts ==> i.linkInsts[k] != nil
  ensures [C17] "status and flow" b.FlowURI == i.flowURI && b.Status == i.status
  ensures [C17] "attributes" attrsOK(b, i)
  ensures [C17] "tasks" tasksOK(b, i)
  ensures [C17] "links" linksOK(b, i)
  modifies b.FlowURI, b.Status, b.Attrs, b.Tasks, b.Links
  quiet
  loopinv over map[string]any b.Attrs != nil && b.Attrs == lentry(b.Attrs) && b.Attrs != i.attrs
  loopinv over map[string]any forall k string {k in b.Attrs} {k in $vis} :: (k in b.Attrs) == (k in $vis) && (k in $vis ==> b.Attrs[k] == i.attrs[k])
  loopinv over map[string]*instance.TaskInst fresh(b.Tasks) && allocated(b.Tasks) && len(b.Tasks) == $i && (arr(b.Tasks) != 0)
  loopinv over map[string]*instance.TaskInst forall x int {b.Tasks[x]} :: 0 <= x && x < len(b.Tasks) ==> b.Tasks[x] != nil && allocated(b.Tasks[x]) && fresh(b.Tasks[x]) && b.Tasks[x].Id in $vis && b.Tasks[x].Status == i.taskInsts[b.Tasks[x].Id].status
  loopinv over map[string]*instance.TaskInst forall k string {k in $vis} :: k in $vis ==> exists x int {b.Tasks[x]} :: 0 <= x && x < len(b.Tasks) && b.Tasks[x].Id == k
  loopinv over map[string]*instance.TaskInst forall x int, y int {b.Tasks[x], b.Tasks[y]} :: 0 <= x && x < y && y < len(b.Tasks) ==> b.Tasks[x].Id != b.Tasks[y].Id
  loopinv over map[int]*instance.LinkInst fresh(b.Links) && allocated(b.Links) && len(b.Links) == $i && (arr(b.Links) != 0)
  loopinv over map[int]*instance.LinkInst forall x int {b.Links[x]} :: 0 <= x && x < len(b.Links) ==> b.Links[x] != nil && allocated(b.Links[x]) && fresh(b.Links[x]) && b.Links[x].Id in $vis && b.Links[x].Status == i.linkInsts[b.Links[x].Id].status
  loopinv over map[int]*instance.LinkInst forall k int {k in $vis} :: k in $vis ==> exists x int {b.Links[x]} :: 0 <= x && x < len(b.Links) && b.Links[x].Id == k
  loopinv over map[int]*instance.LinkInst forall x int, y int {b.Links[x], b.Links[y]} :: 0 <= x && x < y && y < len(b.Links) ==> b.Links[x].Id != b.Links[y].Id
}
define subOK(sf, inst) = sf != nil && sf.SnapshotBase != nil && sf.Id in inst.subflows && sf.TaskId == (inst.subflows[sf.Id].host as *instance.TaskInst).taskID && sf.FlowURI == inst.subflows[sf.Id].flowURI && sf.Status == inst.subflows[sf.Id].status
func (*instance.IndependentInstance).Snapshot(inst) -> (fs) {
  assumes "the table of subflows" forall k int {inst.subflows[k]} :: inst.subflows != nil && k in inst.subflows ==> inst.subflows[k] != nil && inst.subflows[k].host is *instance.TaskInst
  ensures [C17] "of this instance" fs != nil && fresh(fs) && fs.SnapshotBase != nil && fs.Id == inst.id && fs.FlowURI == inst.flowURI && fs.Status == inst.status
  ensures [C17] "attributes" attrsOK(fs, inst)
  ensures [C17] "tasks" tasksOK(fs, inst)
  ensures [C17] "links" linksOK(fs, inst)
  ensures [C17] "all subflows" forall k int {k in inst.subflows} :: inst.subflows != nil && k in inst.subflows ==> exists x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) && fs.Subflows[x].Id == k
  ensures [C17] "once" forall x int, y int {fs.Subflows[x], fs.Subflows[y]} :: 0 <= x && x < y && y < len(fs.Subflows) ==> fs.Subflows[x].Id != fs.Subflows[y].Id
  ensures [C17] "status and flow of the subflows" forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> subOK(fs.Subflows[x], inst)
  ensures [C17] "attributes of the subflows" forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> attrsOK(fs.Subflows[x], inst.subflows[fs.Subflows[x].Id])
  ensures [C17] "tasks of the subflows" forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> tasksOK(fs.Subflows[x], inst.subflows[fs.Subflows[x].Id])
  ensures [C17] "links of the subflows" forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> linksOK(fs.Subflows[x], inst.subflows[fs.Subflows[x].Id])
  modifies nothing
  loopinv <fs *state.Snapshot> fresh(fs.Subflows) && allocated(fs.Subflows) && arr(fs.Subflows) != 0 && len(fs.Subflows) == $i
  loopinv <fs *state.Snapshot> fs.SnapshotBase != nil && fresh(fs.SnapshotBase) && fs.SnapshotBase == lentry(fs.SnapshotBase) && fs.Id == inst.id
  loopinv <fs *state.Snapshot> forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> fs.Subflows[x] != nil && allocated(fs.Subflows[x]) && fresh(fs.Subflows[x]) && fresh(fs.Subflows[x].SnapshotBase) && allocated(fs.Subflows[x].SnapshotBase) && fs.Subflows[x].Id in $vis && subOK(fs.Subflows[x], inst)
  loopinv <fs *state.Snapshot> forall k int {k in $vis} :: k in $vis ==> exists x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) && fs.Subflows[x].Id == k
  loopinv <fs *state.Snapshot> forall x int, y int {fs.Subflows[x], fs.Subflows[y]} :: 0 <= x && x < y && y < len(fs.Subflows) ==> fs.Subflows[x].Id != fs.Subflows[y].Id
  loopinv <fs *state.Snapshot> fs.FlowURI == inst.flowURI && fs.Status == inst.status && attrsOK(fs, inst)
  loopinv <fs *state.Snapshot> tasksOK(fs, inst)
  loopinv <fs *state.Snapshot> linksOK(fs, inst)
  loopinv <fs *state.Snapshot> forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> attrsOK(fs.Subflows[x], inst.subflows[fs.Subflows[x].Id])
  loopinv <fs *state.Snapshot> forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> tasksOK(fs.Subflows[x], inst.subflows[fs.Subflows[x].Id])
  loopinv <fs *state.Snapshot> forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> linksOK(fs.Subflows[x], inst.subflows[fs.Subflows[x].Id])
}
