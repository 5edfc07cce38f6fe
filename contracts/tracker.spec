// the change recorder as its users see it: a sequence of records (only followed by the check of C16)
define rec1(k) = #rn == old(#rn) + 1 && #rk == store(old(#rk), old(#rn), k)
define norec() = #rn == old(#rn) && #rk == old(#rk) && #rs == old(#rs) && #ri == old(#ri) && #rname == old(#rname) && #rv == old(#rv) && #ai == old(#ai) && #di == old(#di)

iface (instance.ChangeTracker).SetStatus(ct, sub, st) {
  modifies @RECS
  sets [C16] #rk[#rn] := 1
  sets [C16] #rs[#rn] := sub
  sets [C16] #ri[#rn] := st
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := nil
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).AttrChange(ct, sub, name, v) {
  modifies @RECS
  sets [C16] #ai[name] := #rn
  sets [C16] #rk[#rn] := 2
  sets [C16] #rs[#rn] := sub
  sets [C16] #ri[#rn] := 0
  sets [C16] #rname[#rn] := name
  sets [C16] #rv[#rn] := v
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).FlowCreated(ct, f) {
  modifies @RECS
  sets [C16] #rk[#rn] := 3
  sets [C16] #rs[#rn] := 0
  sets [C16] #ri[#rn] := 0
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := box(f)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).SubflowCreated(ct, f) {
  modifies @RECS
  sets [C16] #rk[#rn] := 4
  sets [C16] #rs[#rn] := f.subflowId
  sets [C16] #ri[#rn] := 0
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := box(f)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).WorkItemAdded(ct, wi) {
  modifies @RECS
  sets [C16] #rk[#rn] := 5
  sets [C16] #rs[#rn] := wi.SubFlowID
  sets [C16] #ri[#rn] := wi.ID
  sets [C16] #rname[#rn] := wi.TaskID
  sets [C16] #rv[#rn] := box(wi)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).WorkItemRemoved(ct, wi) {
  modifies @RECS
  sets [C16] #rk[#rn] := 6
  sets [C16] #rs[#rn] := wi.SubFlowID
  sets [C16] #ri[#rn] := wi.ID
  sets [C16] #rname[#rn] := wi.TaskID
  sets [C16] #rv[#rn] := box(wi)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).TaskAdded(ct, ti) {
  modifies @RECS
  sets [C16] #rk[#rn] := 7
  sets [C16] #rs[#rn] := ti.flowInst.subflowId
  sets [C16] #ri[#rn] := ti.status
  sets [C16] #rname[#rn] := ti.taskID
  sets [C16] #rv[#rn] := box(ti)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).TaskUpdated(ct, ti) {
  modifies @RECS
  sets [C16] #rk[#rn] := 8
  sets [C16] #rs[#rn] := ti.flowInst.subflowId
  sets [C16] #ri[#rn] := ti.status
  sets [C16] #rname[#rn] := ti.taskID
  sets [C16] #rv[#rn] := box(ti)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).TaskRemoved(ct, sub, id) {
  modifies @RECS
  sets [C16] #di[id] := #rn
  sets [C16] #rk[#rn] := 9
  sets [C16] #rs[#rn] := sub
  sets [C16] #ri[#rn] := 0
  sets [C16] #rname[#rn] := id
  sets [C16] #rv[#rn] := nil
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).LinkAdded(ct, li) {
  modifies @RECS
  sets [C16] #rk[#rn] := 10
  sets [C16] #rs[#rn] := li.flowInst.subflowId
  sets [C16] #ri[#rn] := li.status
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := box(li)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).LinkUpdated(ct, li) {
  modifies @RECS
  sets [C16] #rk[#rn] := 11
  sets [C16] #rs[#rn] := li.flowInst.subflowId
  sets [C16] #ri[#rn] := li.status
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := box(li)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).LinkRemoved(ct, sub, id) {
  modifies @RECS
  sets [C16] #rk[#rn] := 12
  sets [C16] #rs[#rn] := sub
  sets [C16] #ri[#rn] := id
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := nil
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).FlowDone(ct, f) {
  modifies @RECS
  sets [C16] #rk[#rn] := 13
  sets [C16] #rs[#rn] := 0
  sets [C16] #ri[#rn] := 0
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := box(f)
  sets [C16] #rn := #rn + 1
}
iface (instance.ChangeTracker).SubflowDone(ct, f) {
  modifies @RECS
  sets [C16] #rk[#rn] := 14
  sets [C16] #rs[#rn] := f.subflowId
  sets [C16] #ri[#rn] := 0
  sets [C16] #rname[#rn] := ""
  sets [C16] #rv[#rn] := box(f)
  sets [C16] #rn := #rn + 1
}
