// C23: snapshots rebuilt from recorded steps.

// position of a task (link) in the list of its flow's snapshot, owner of a task (link) and of a list
ghost field #tix [string] int
ghost field #lix [int] int
ghost field #own *state.SnapshotBase
ghost field #lown *state.SnapshotBase
ghost #tarr [int] *state.SnapshotBase
ghost #larr [int] *state.SnapshotBase
define hasT(s, t) = 0 <= s.#tix[t] && s.#tix[t] < len(s.Tasks) && s.Tasks[s.#tix[t]].Id == t
define hasL(s, t) = 0 <= s.#lix[t] && s.#lix[t] < len(s.Links) && s.Links[s.#lix[t]].Id == t
define stT(s, t) = if hasT(s, t) then s.Tasks[s.#tix[t]].Status else 0
define stL(s, t) = if hasL(s, t) then s.Links[s.#lix[t]].Status else 0
define wfT(s) = (forall x int {s.Tasks[x]} :: 0 <= x && x < len(s.Tasks) ==> s.Tasks[x] != nil && allocated(s.Tasks[x]) && s.Tasks[x].#own == s && s.#tix[s.Tasks[x].Id] == x)
  && (if arr(s.Tasks) == 0 then len(s.Tasks) == 0 else allocated(s.Tasks) && #tarr[arr(s.Tasks)] == s)
define wfL(s) = (forall x int {s.Links[x]} :: 0 <= x && x < len(s.Links) ==> s.Links[x] != nil && allocated(s.Links[x]) && s.Links[x].#lown == s && s.#lix[s.Links[x].Id] == x)
  && (if arr(s.Links) == 0 then len(s.Links) == 0 else allocated(s.Links) && #larr[arr(s.Links)] == s)

define ownT() = forall td *state.Task {td.#own} :: td != nil && allocated(td) && !fresh(td) ==> td.#own == old(td.#own)
define ownL() = forall td *state.Link {td.#lown} :: td != nil && allocated(td) && !fresh(td) ==> td.#lown == old(td.#lown)

define keepArrT(s) = forall a int {#tarr[a]} :: 0 < a && a < old(#alloc) && a != old(arr(s.Tasks)) ==> #tarr[a] == old(#tarr[a])
define keepArrL(s) = forall a int {#larr[a]} :: 0 < a && a < old(#alloc) && a != old(arr(s.Links)) ==> #larr[a] == old(#larr[a])
define ownArrT(s) = arr(s.Tasks) == old(arr(s.Tasks)) || fresh(s.Tasks)
define ownArrL(s) = arr(s.Links) == old(arr(s.Links)) || fresh(s.Links)

func state.UpdateTasks(s, id, c) {
  requires [C23] wfT(s)
  ensures [C23] "the task is listed with its latest status" hasT(s, id) && stT(s, id) == (if old(stT(s, id)) != 0 then old(stT(s, id)) else c.Status)
  ensures [C23] "the other tasks are kept" forall u string {s.#tix[u]} :: u != id ==> hasT(s, u) == old(hasT(s, u)) && stT(s, u) == old(stT(s, u))
  ensures [C23] "every task once" wfT(s)
  ensures [C23] "in an entry and a list of its own" (len(s.Tasks) > old(len(s.Tasks)) ==> fresh(s.Tasks[s.#tix[id]])) && ownArrT(s)
  ensures [C23] "tasks of others" forall td *state.Task {td.Status} :: td != nil && allocated(td) && !fresh(td) && td.#own != s ==> td.Status == old(td.Status)
  sets [C23] s.#tix := if len(s.Tasks) > old(len(s.Tasks)) then store(old(s.#tix), id, old(len(s.Tasks))) else old(s.#tix)
  sets [C23] s.Tasks[s.#tix[id]].#own := s when len(s.Tasks) > old(len(s.Tasks))
  sets [C23] #tarr[arr(s.Tasks)] := s
  modifies s.Tasks, s.Tasks[*], all state.Task.Status, s.#tix
  loopinv <td *state.Task> td == nil || td.Id == id
  loopinv <td *state.Task> td != nil ==> hasT(s, id) && td == s.Tasks[s.#tix[id]]
  loopinv <td *state.Task> td == nil ==> forall x int {s.Tasks[x]} :: 0 <= x && x < $i ==> s.Tasks[x].Id != id
}

func state.UpdateLinks(s, id, c) {
  requires [C23] wfL(s)
  ensures [C23] "the link is listed with its latest status" hasL(s, id) && stL(s, id) == (if old(stL(s, id)) != 0 then old(stL(s, id)) else c.Status)
  ensures [C23] "the other links are kept" forall u int {s.#lix[u]} :: u != id ==> hasL(s, u) == old(hasL(s, u)) && stL(s, u) == old(stL(s, u))
  ensures [C23] "every link once" wfL(s)
  ensures [C23] "in an entry and a list of its own" (len(s.Links) > old(len(s.Links)) ==> fresh(s.Links[s.#lix[id]])) && ownArrL(s)
  ensures [C23] "links of others" forall td *state.Link {td.Status} :: td != nil && allocated(td) && !fresh(td) && td.#lown != s ==> td.Status == old(td.Status)
  sets [C23] s.#lix := if len(s.Links) > old(len(s.Links)) then store(old(s.#lix), id, old(len(s.Links))) else old(s.#lix)
  sets [C23] s.Links[s.#lix[id]].#lown := s when len(s.Links) > old(len(s.Links))
  sets [C23] #larr[arr(s.Links)] := s
  modifies s.Links, s.Links[*], all state.Link.Status, s.#lix
  loopinv <td *state.Link> td == nil || td.Id == id
  loopinv <td *state.Link> td != nil ==> hasL(s, id) && td == s.Links[s.#lix[id]]
  loopinv <td *state.Link> td == nil ==> forall x int {s.Links[x]} :: 0 <= x && x < $i ==> s.Links[x].Id != id
}

define hasA(s, a) = s.Attrs != nil && a in s.Attrs
define okChange(c) = (forall t string {c.Tasks[t]} :: t in c.Tasks ==> c.Tasks[t] != nil) && (forall t int {c.Links[t]} :: t in c.Links ==> c.Links[t] != nil)
define chT(c, t) = if t in c.Tasks then c.Tasks[t].Status else 0
define chL(c, t) = if t in c.Links then c.Links[t].Status else 0

func state.UpdateFlow(s, c) {
  requires [C23] wfT(s) && wfL(s)
  requires [C23] okChange(c)
  requires [C23] s.Attrs == nil || s.Attrs != c.Attrs
  ensures [C23] "latest status" s.Status == (if old(s.Status) != 0 then old(s.Status) else c.Status)
  ensures [C23] "latest attributes" forall a string {a in s.Attrs} {s.Attrs[a]} :: hasA(s, a) == (old(hasA(s, a)) || hasA(c, a)) && (hasA(s, a) ==> s.Attrs[a] == (if old(hasA(s, a)) then old(s.Attrs[a]) else c.Attrs[a]))
  ensures [C23] "in a map of its own" old(s.Attrs) == s.Attrs || fresh(s.Attrs)
  ensures [C23] "latest task statuses" forall t string {s.#tix[t]} :: hasT(s, t) == (old(hasT(s, t)) || t in c.Tasks) && stT(s, t) == (if old(stT(s, t)) != 0 then old(stT(s, t)) else chT(c, t))
  ensures [C23] "latest link statuses" forall t int {s.#lix[t]} :: hasL(s, t) == (old(hasL(s, t)) || t in c.Links) && stL(s, t) == (if old(stL(s, t)) != 0 then old(stL(s, t)) else chL(c, t))
  ensures [C23] "every task and link once" wfT(s) && wfL(s)
  ensures [C23] "in lists of its own" ownArrT(s) && ownArrL(s) && ownT() && ownL() && keepArrT(s) && keepArrL(s)
  ensures [C23] "tasks of others" forall td *state.Task {td.Status} :: td != nil && allocated(td) && !fresh(td) && td.#own != s ==> td.Status == old(td.Status)
  ensures [C23] "links of others" forall td *state.Link {td.Status} :: td != nil && allocated(td) && !fresh(td) && td.#lown != s ==> td.Status == old(td.Status)
  modifies s.Tasks, s.Tasks[*], all state.Task.Status, s.#tix, #tarr, s.Links, s.Links[*], all state.Link.Status, s.#lix, #larr, s.Attrs, s.Attrs[*], s.Status, s.FlowURI
  loopinv over map[string]any forall a string {a in s.Attrs} {s.Attrs[a]} :: hasA(s, a) == (old(hasA(s, a)) || a in $vis) && (hasA(s, a) ==> s.Attrs[a] == (if old(hasA(s, a)) then old(s.Attrs[a]) else c.Attrs[a]))
  loopinv over map[string]*change.Task forall t string {s.#tix[t]} :: hasT(s, t) == (old(hasT(s, t)) || t in $vis) && stT(s, t) == (if old(stT(s, t)) != 0 then old(stT(s, t)) else if t in $vis then chT(c, t) else 0)
  loopinv over map[string]*change.Task wfT(s)
  loopinv over map[string]*change.Task ownT()
  loopinv over map[string]*change.Task ownArrT(s) && keepArrT(s)
  loopinv over map[string]*change.Task forall td *state.Task {td.Status} :: td != nil && allocated(td) && !fresh(td) && td.#own != s ==> td.Status == old(td.Status)
  loopinv over map[int]*change.Link forall t int {s.#lix[t]} :: hasL(s, t) == (old(hasL(s, t)) || t in $vis) && stL(s, t) == (if old(stL(s, t)) != 0 then old(stL(s, t)) else if t in $vis then chL(c, t) else 0)
  loopinv over map[int]*change.Link wfL(s)
  loopinv over map[int]*change.Link ownL()
  loopinv over map[int]*change.Link ownArrL(s) && keepArrL(s)
  loopinv over map[int]*change.Link forall td *state.Link {td.Status} :: td != nil && allocated(td) && !fresh(td) && td.#lown != s ==> td.Status == old(td.Status)
}

// what step j records of flow k
define rec(ss, j, k) = k in ss[j].FlowChanges
define recSt(ss, j, k) = if k in ss[j].FlowChanges then ss[j].FlowChanges[k].Status else 0
define recT(ss, j, k, t) = k in ss[j].FlowChanges && t in ss[j].FlowChanges[k].Tasks
define recTs(ss, j, k, t) = if k in ss[j].FlowChanges && t in ss[j].FlowChanges[k].Tasks then ss[j].FlowChanges[k].Tasks[t].Status else 0
define recL(ss, j, k, t) = k in ss[j].FlowChanges && t in ss[j].FlowChanges[k].Links
define recLs(ss, j, k, t) = if k in ss[j].FlowChanges && t in ss[j].FlowChanges[k].Links then ss[j].FlowChanges[k].Links[t].Status else 0
define recA(ss, j, k, a) = old(k in ss[j].FlowChanges && ss[j].FlowChanges[k].Attrs != nil && a in ss[j].FlowChanges[k].Attrs)
// what b shows of flow k is the latest of what is recorded in the steps from fr on
define latestSt(b, ss, k, fr) = (b.Status == 0 ==> forall j int {ss[j]} :: fr <= j && j < len(ss) ==> recSt(ss, j, k) == 0)
  && (b.Status != 0 ==> exists j int {ss[j]} :: fr <= j && j < len(ss) && b.Status == recSt(ss, j, k) && (forall m int {ss[m]} :: j < m && m < len(ss) ==> recSt(ss, m, k) == 0))
define latestT(b, ss, k, fr) = forall t string {b.#tix[t]} :: (stT(b, t) == 0 ==> forall j int {ss[j]} :: fr <= j && j < len(ss) ==> recTs(ss, j, k, t) == 0)
  && (stT(b, t) != 0 ==> exists j int {ss[j]} :: fr <= j && j < len(ss) && stT(b, t) == recTs(ss, j, k, t) && (forall m int {ss[m]} :: j < m && m < len(ss) ==> recTs(ss, m, k, t) == 0))
define listedT(b, ss, k, fr) = forall t string {b.#tix[t]} :: (hasT(b, t) ==> exists j int {ss[j]} :: fr <= j && j < len(ss) && recT(ss, j, k, t))
  && (!hasT(b, t) ==> forall j int {ss[j]} :: fr <= j && j < len(ss) ==> !recT(ss, j, k, t))
define latestL(b, ss, k, fr) = forall t int {b.#lix[t]} :: (stL(b, t) == 0 ==> forall j int {ss[j]} :: fr <= j && j < len(ss) ==> recLs(ss, j, k, t) == 0)
  && (stL(b, t) != 0 ==> exists j int {ss[j]} :: fr <= j && j < len(ss) && stL(b, t) == recLs(ss, j, k, t) && (forall m int {ss[m]} :: j < m && m < len(ss) ==> recLs(ss, m, k, t) == 0))
define listedL(b, ss, k, fr) = forall t int {b.#lix[t]} :: (hasL(b, t) ==> exists j int {ss[j]} :: fr <= j && j < len(ss) && recL(ss, j, k, t))
  && (!hasL(b, t) ==> forall j int {ss[j]} :: fr <= j && j < len(ss) ==> !recL(ss, j, k, t))
define latestA(b, ss, k, fr) = forall a string {a in b.Attrs} {b.Attrs[a]} :: (!hasA(b, a) ==> forall j int {ss[j]} :: fr <= j && j < len(ss) ==> !recA(ss, j, k, a))
  && (hasA(b, a) ==> exists j int {ss[j]} :: fr <= j && j < len(ss) && recA(ss, j, k, a) && b.Attrs[a] == old(ss[j].FlowChanges[k].Attrs[a]) && (forall m int {ss[m]} :: j < m && m < len(ss) ==> !recA(ss, m, k, a)))
define okBase(b) = b != nil && fresh(b) && wfT(b) && wfL(b) && (b.Attrs == nil || fresh(b.Attrs))

define okSubs(subs) = forall k int {subs[k]} {k in subs} :: k in subs ==> k > 0 && subs[k] != nil && fresh(subs[k]) && subs[k].Id == k && okBase(subs[k].SnapshotBase)
define bases1(subs) = forall k int, j int {subs[k], subs[j]} :: k in subs && j in subs && k != j ==> subs[k] != subs[j]
define bases2(subs) = forall k int, j int {subs[k], subs[j]} :: k in subs && j in subs && k != j ==> subs[k].SnapshotBase != subs[j].SnapshotBase
define bases3(subs) = forall k int, j int {subs[k], subs[j]} :: k in subs && j in subs && k != j && subs[k].SnapshotBase.Attrs != nil ==> subs[k].SnapshotBase.Attrs != subs[j].SnapshotBase.Attrs
define subsApart(fs, subs) = forall k int {subs[k]} :: k in subs ==> subs[k].SnapshotBase != fs.SnapshotBase && (fs.SnapshotBase.Attrs != nil ==> subs[k].SnapshotBase.Attrs != fs.SnapshotBase.Attrs)

func state.StepsToSnapshot(id, ss) -> (r) {
  assumes "steps as the recorder leaves them" forall j int {ss[j]} :: 0 <= j && j < len(ss) ==> ss[j] != nil && (forall k int {ss[j].FlowChanges[k]} :: k in ss[j].FlowChanges ==> k >= 0 && ss[j].FlowChanges[k] != nil && allocated(ss[j].FlowChanges[k]) && ss[j].FlowChanges[k].SubflowId == k && okChange(ss[j].FlowChanges[k]) && (ss[j].FlowChanges[k].Attrs == nil || allocated(ss[j].FlowChanges[k].Attrs)))
  assumes "and queue changes" forall j int {ss[j].QueueChanges} :: 0 <= j && j < len(ss) ==> forall q int {ss[j].QueueChanges[q]} :: q in ss[j].QueueChanges ==> ss[j].QueueChanges[q] != nil
  ensures [C23] "of this instance" r != nil && r.Id == id && okBase(r.SnapshotBase)
  ensures [C23] "status of the main flow" group st latestSt(r.SnapshotBase, ss, 0, 0)
  ensures [C23] "task statuses of the main flow" group t latestT(r.SnapshotBase, ss, 0, 0)
  ensures [C23] "tasks of the main flow" group lt listedT(r.SnapshotBase, ss, 0, 0)
  ensures [C23] "link statuses of the main flow" group l latestL(r.SnapshotBase, ss, 0, 0)
  ensures [C23] "links of the main flow" group ll listedL(r.SnapshotBase, ss, 0, 0)
  ensures [C23] "attributes of the main flow" group a latestA(r.SnapshotBase, ss, 0, 0)
  ensures [C23] "every recorded subflow" group none forall j int, k int {rec(ss, j, k)} :: 0 <= j && j < len(ss) && k > 0 && rec(ss, j, k) ==> exists x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) && r.Subflows[x].Id == k
  ensures [C23] "each of its own" group none forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> okBase(r.Subflows[x].SnapshotBase)
  ensures [C23] "status of the subflows" group st forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> latestSt(r.Subflows[x].SnapshotBase, ss, r.Subflows[x].Id, 0)
  ensures [C23] "task statuses of the subflows" group t forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> latestT(r.Subflows[x].SnapshotBase, ss, r.Subflows[x].Id, 0)
  ensures [C23] "tasks of the subflows" group lt forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> listedT(r.Subflows[x].SnapshotBase, ss, r.Subflows[x].Id, 0)
  ensures [C23] "link statuses of the subflows" group l forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> latestL(r.Subflows[x].SnapshotBase, ss, r.Subflows[x].Id, 0)
  ensures [C23] "links of the subflows" group ll forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> listedL(r.Subflows[x].SnapshotBase, ss, r.Subflows[x].Id, 0)
  ensures [C23] "attributes of the subflows" group a forall x int {r.Subflows[x]} :: 0 <= x && x < len(r.Subflows) ==> latestA(r.Subflows[x].SnapshotBase, ss, r.Subflows[x].Id, 0)
  modifies all state.Task.Status, all state.Link.Status, all []*state.Task, all []*state.Link, all []*state.Subflow, all []*state.WorkItem, #tarr, #larr
  loopinv <i phi int> over []*state.Step i >= 0 - 1
  loopinv <fs *state.Snapshot> over []*state.Step fs != nil && fresh(fs) && fs.Id == id && okBase(fs.SnapshotBase) && len(fs.Subflows) == 0
  loopinv <subs map[int]*state.Subflow> over []*state.Step subs != nil && fresh(subs)
  loopinv <subs map[int]*state.Subflow> over []*state.Step okSubs(subs)
  loopinv <subs map[int]*state.Subflow> over []*state.Step bases1(subs)
  loopinv <subs map[int]*state.Subflow> over []*state.Step bases2(subs)
  loopinv <subs map[int]*state.Subflow> over []*state.Step bases3(subs)
  loopinv <fs *state.Snapshot, subs map[int]*state.Subflow> over []*state.Step subsApart(fs, subs)
  loopinv <fs *state.Snapshot> over map[int]*change.Flow fs != nil && fresh(fs) && fs.Id == id && okBase(fs.SnapshotBase) && len(fs.Subflows) == 0
  loopinv <subs map[int]*state.Subflow> over map[int]*change.Flow subs != nil && fresh(subs)
  loopinv <subs map[int]*state.Subflow> over map[int]*change.Flow okSubs(subs)
  loopinv <subs map[int]*state.Subflow> over map[int]*change.Flow bases1(subs)
  loopinv <subs map[int]*state.Subflow> over map[int]*change.Flow bases2(subs)
  loopinv <subs map[int]*state.Subflow> over map[int]*change.Flow bases3(subs)
  loopinv <fs *state.Snapshot, subs map[int]*state.Subflow> over map[int]*change.Flow subsApart(fs, subs)
  loopinv group st <fs *state.Snapshot, i phi int> over []*state.Step latestSt(fs.SnapshotBase, ss, 0, i + 1)
  loopinv group st <fs *state.Snapshot, i phi int> over map[int]*change.Flow latestSt(fs.SnapshotBase, ss, 0, if 0 in $vis then i else i + 1)
  loopinv group st <subs map[int]*state.Subflow, i phi int> over []*state.Step forall k int {subs[k]} :: k in subs ==> latestSt(subs[k].SnapshotBase, ss, k, i + 1)
  loopinv group st <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {subs[k]} :: k in subs ==> latestSt(subs[k].SnapshotBase, ss, k, if k in $vis then i else i + 1)
  loopinv group t <fs *state.Snapshot, i phi int> over []*state.Step latestT(fs.SnapshotBase, ss, 0, i + 1)
  loopinv group t <fs *state.Snapshot, i phi int> over map[int]*change.Flow latestT(fs.SnapshotBase, ss, 0, if 0 in $vis then i else i + 1)
  loopinv group t <subs map[int]*state.Subflow, i phi int> over []*state.Step forall k int {subs[k]} :: k in subs ==> latestT(subs[k].SnapshotBase, ss, k, i + 1)
  loopinv group t <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {subs[k]} :: k in subs ==> latestT(subs[k].SnapshotBase, ss, k, if k in $vis then i else i + 1)
  loopinv group lt <fs *state.Snapshot, i phi int> over []*state.Step listedT(fs.SnapshotBase, ss, 0, i + 1)
  loopinv group lt <fs *state.Snapshot, i phi int> over map[int]*change.Flow listedT(fs.SnapshotBase, ss, 0, if 0 in $vis then i else i + 1)
  loopinv group lt <subs map[int]*state.Subflow, i phi int> over []*state.Step forall k int {subs[k]} :: k in subs ==> listedT(subs[k].SnapshotBase, ss, k, i + 1)
  loopinv group lt <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {subs[k]} :: k in subs ==> listedT(subs[k].SnapshotBase, ss, k, if k in $vis then i else i + 1)
  loopinv group l <fs *state.Snapshot, i phi int> over []*state.Step latestL(fs.SnapshotBase, ss, 0, i + 1)
  loopinv group l <fs *state.Snapshot, i phi int> over map[int]*change.Flow latestL(fs.SnapshotBase, ss, 0, if 0 in $vis then i else i + 1)
  loopinv group l <subs map[int]*state.Subflow, i phi int> over []*state.Step forall k int {subs[k]} :: k in subs ==> latestL(subs[k].SnapshotBase, ss, k, i + 1)
  loopinv group l <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {subs[k]} :: k in subs ==> latestL(subs[k].SnapshotBase, ss, k, if k in $vis then i else i + 1)
  loopinv group ll <fs *state.Snapshot, i phi int> over []*state.Step listedL(fs.SnapshotBase, ss, 0, i + 1)
  loopinv group ll <fs *state.Snapshot, i phi int> over map[int]*change.Flow listedL(fs.SnapshotBase, ss, 0, if 0 in $vis then i else i + 1)
  loopinv group ll <subs map[int]*state.Subflow, i phi int> over []*state.Step forall k int {subs[k]} :: k in subs ==> listedL(subs[k].SnapshotBase, ss, k, i + 1)
  loopinv group ll <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {subs[k]} :: k in subs ==> listedL(subs[k].SnapshotBase, ss, k, if k in $vis then i else i + 1)
  loopinv group a <fs *state.Snapshot, i phi int> over []*state.Step latestA(fs.SnapshotBase, ss, 0, i + 1)
  loopinv group a <fs *state.Snapshot, i phi int> over map[int]*change.Flow latestA(fs.SnapshotBase, ss, 0, if 0 in $vis then i else i + 1)
  loopinv group a <subs map[int]*state.Subflow, i phi int> over []*state.Step forall k int {subs[k]} :: k in subs ==> latestA(subs[k].SnapshotBase, ss, k, i + 1)
  loopinv group a <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {subs[k]} :: k in subs ==> latestA(subs[k].SnapshotBase, ss, k, if k in $vis then i else i + 1)
  loopinv <subs map[int]*state.Subflow, i phi int> over []*state.Step forall j int, k int {rec(ss, j, k)} :: i < j && j < len(ss) && k > 0 && rec(ss, j, k) ==> k in subs
  loopinv <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall j int, k int {rec(ss, j, k)} :: i < j && j < len(ss) && k > 0 && rec(ss, j, k) ==> k in subs
  loopinv <subs map[int]*state.Subflow, i phi int> over map[int]*change.Flow forall k int {k in subs} :: k > 0 && k in $vis ==> k in subs
  loopinv <fs *state.Snapshot, subs map[int]*state.Subflow> over map[int]*state.Subflow forall k int {k in subs} :: k in $vis ==> exists x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) && fs.Subflows[x] == subs[k]
  loopinv <fs *state.Snapshot, subs map[int]*state.Subflow> over map[int]*state.Subflow forall x int {fs.Subflows[x]} :: 0 <= x && x < len(fs.Subflows) ==> fs.Subflows[x].Id in $vis && fs.Subflows[x] == subs[fs.Subflows[x].Id]
}
