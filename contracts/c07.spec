// C07: which tasks are entered at the start, and when a flow is complete.

// ghost: position in the definition of the i-th entry, and the reverse
ghost #src [int] int

define leads(t) = len(t.fromLinks) == 0
// exactly the tasks without incoming links, each once, in order
define leading(es, ts) = (forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i]) && 0 <= #src[i] && #src[i] < len(ts) && (es[i]).Task == ts[#src[i]] && leads(ts[#src[i]])) && (forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> #src[i] < #src[j]) && (forall k int {ts[k]} :: 0 <= k && k < len(ts) && leads(ts[k]) ==> exists i int {es[i]} :: 0 <= i && i < len(es) && #src[i] == k)

func simple.getFlowTaskEntries(tasks, leadingOnly) -> (es) {
  ensures [C07] "only leading tasks" leadingOnly ==> forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i]) && leads((es[i]).Task)
  ensures [C07] "only tasks of the flow" forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i]) && exists k int {tasks[k]} :: 0 <= k && k < len(tasks) && (es[i]).Task == tasks[k]
  ensures [C07] "every leading task" forall k int {tasks[k]} :: 0 <= k && k < len(tasks) && (leads(tasks[k]) || !leadingOnly) ==> exists i int {es[i]} :: 0 <= i && i < len(es) && (es[i]).Task == tasks[k]
  ensures [C07] "each at most once" (forall j int, k int {tasks[j], tasks[k]} :: 0 <= j && j < k && k < len(tasks) ==> tasks[j] != tasks[k]) ==> forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> (es[i]).Task != (es[j]).Task
  ensures [C07,C04] "distinct entries" distinctEs(es)
  modifies nothing
  loopinv <es []*model.TaskEntry> len(es) <= $i
  loopinv <es []*model.TaskEntry> forall j int {es[j]} :: 0 <= j && j < len(es) ==> es[j] != nil && fresh(es[j]) && (leadingOnly ==> leads((es[j]).Task))
  loopinv <es []*model.TaskEntry> forall j int {es[j]} :: 0 <= j && j < len(es) ==> exists k int {tasks[k]} :: 0 <= k && k < $i && (es[j]).Task == tasks[k]
  loopinv <es []*model.TaskEntry> forall k int {tasks[k]} :: 0 <= k && k < $i && (leads(tasks[k]) || !leadingOnly) ==> exists j int {es[j]} :: 0 <= j && j < len(es) && (es[j]).Task == tasks[k]
  loopinv <es []*model.TaskEntry> (forall j int, k int {tasks[j], tasks[k]} :: 0 <= j && j < k && k < len(tasks) ==> tasks[j] != tasks[k]) ==> forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> (es[i]).Task != (es[j]).Task
  loopinv <es []*model.TaskEntry> forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> es[i] != es[j]
}

define injective(m) = forall a string, b string {m[a], m[b]} :: a in m && b in m && a != b ==> m[a] != m[b]
define distinct(r) = forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
define tasksOf(r, m) = (forall i int {r[i]} :: 0 <= i && i < len(r) ==> exists k string {m[k]} :: k in m && r[i] == m[k]) && (forall k string {k in m} {m[k]} :: k in m ==> exists i int {r[i]} :: 0 <= i && i < len(r) && r[i] == m[k])

func (*definition.Definition).Tasks(d) -> (r) {
  ensures [C07,C15] "the tasks of the flow" tasksOf(r, d.tasks)
  ensures [C07,C15] "each once" injective(d.tasks) ==> distinct(r)
  modifies nothing
  loopinv <r []*definition.Task> forall i int {r[i]} :: 0 <= i && i < len(r) ==> exists k string {d.tasks[k]} :: k in d.tasks && k in $vis && r[i] == d.tasks[k]
  loopinv <r []*definition.Task> injective(d.tasks) ==> distinct(r)
  loopinv <r []*definition.Task> forall k string {k in $vis} :: k in $vis ==> exists i int {r[i]} :: 0 <= i && i < len(r) && r[i] == d.tasks[k]
}
func (*definition.ErrorHandler).Tasks(d) -> (r) {
  ensures [C07,C15] "the tasks of the error handler" tasksOf(r, d.tasks)
  ensures [C07,C15] "each once" injective(d.tasks) ==> distinct(r)
  modifies nothing
  loopinv <r []*definition.Task> forall i int {r[i]} :: 0 <= i && i < len(r) ==> exists k string {d.tasks[k]} :: k in d.tasks && k in $vis && r[i] == d.tasks[k]
  loopinv <r []*definition.Task> injective(d.tasks) ==> distinct(r)
  loopinv <r []*definition.Task> forall k string {k in $vis} :: k in $vis ==> exists i int {r[i]} :: 0 <= i && i < len(r) && r[i] == d.tasks[k]
}

define distinctEs(es) = forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> es[i] != es[j]
define once(es, m) = injective(m) ==> forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> (es[i]).Task != (es[j]).Task

// the entries are those of exactly the tasks without incoming links
define entersLeading(es, m) = (forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil && fresh(es[i]) && leads((es[i]).Task) && (exists k string {m[k]} :: k in m && (es[i]).Task == m[k])) && (forall k string {k in m} {m[k]} :: k in m && leads(m[k]) ==> exists i int {es[i]} :: 0 <= i && i < len(es) && (es[i]).Task == m[k])

iface (model.FlowBehavior).Start(fb, ctx) -> (ok, es) {
  requires "the context is a flow instance" ctx is *instance.Instance
  ensures [C07] "the flow is started" ok
  ensures [C07] "exactly the tasks without incoming links are entered" entersLeading(es, (ctx as *instance.Instance).flowDef.tasks)
  ensures [C07,C04] "distinct entries" distinctEs(es)
  ensures [C07] "each once" once(es, (ctx as *instance.Instance).flowDef.tasks)
  modifies nothing
}
impl (*simple.FlowBehavior).Start of (model.FlowBehavior).Start { }
iface (model.FlowBehavior).StartErrorHandler(fb, ctx) -> (es) {
  requires "the context is a flow instance" ctx is *instance.Instance
  ensures [C07] "exactly the handler's tasks without incoming links are entered" entersLeading(es, (ctx as *instance.Instance).flowDef.errorHandler.tasks)
  ensures [C07,C04] "distinct entries" distinctEs(es)
  ensures [C07] "each once" once(es, (ctx as *instance.Instance).flowDef.errorHandler.tasks)
  modifies nothing
}
impl (*simple.FlowBehavior).StartErrorHandler of (model.FlowBehavior).StartErrorHandler { }

func (*instance.Instance).TaskInstances(inst) -> (r) {
  ensures [C07] "the task instances of the flow" (forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] is *instance.TaskInst && (exists k string {inst.taskInsts[k]} :: k in inst.taskInsts && (r[i] as *instance.TaskInst) == inst.taskInsts[k])) && (forall k string {k in inst.taskInsts} {inst.taskInsts[k]} :: k in inst.taskInsts ==> exists i int {r[i]} :: 0 <= i && i < len(r) && r[i] is *instance.TaskInst && (r[i] as *instance.TaskInst) == inst.taskInsts[k])
  modifies nothing
  loopinv <r []model.TaskInstance> forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] is *instance.TaskInst && (exists k string {inst.taskInsts[k]} :: k in inst.taskInsts && (r[i] as *instance.TaskInst) == inst.taskInsts[k])
  loopinv <r []model.TaskInstance> forall k string {k in $vis} :: k in $vis ==> exists i int {r[i]} :: 0 <= i && i < len(r) && r[i] is *instance.TaskInst && (r[i] as *instance.TaskInst) == inst.taskInsts[k]
}

define allDone(inst) = forall k string {k in inst.taskInsts} {inst.taskInsts[k]} :: k in inst.taskInsts ==> (inst.taskInsts[k]).status >= model.TaskStatusDone

iface (model.FlowBehavior).TaskDone(fb, ctx) -> (done) {
  requires "the context is a flow instance" ctx is *instance.Instance
  ensures [C07] "done exactly if no known task is unfinished" done == allDone(ctx as *instance.Instance)
  sets #fdone := done
  modifies nothing
}
impl (*simple.FlowBehavior).TaskDone of (model.FlowBehavior).TaskDone {
  loopinv <ts []model.TaskInstance> forall j int {ts[j]} :: 0 <= j && j < $i ==> (ts[j] as *instance.TaskInst).status >= model.TaskStatusDone
}
iface (model.FlowBehavior).Done(fb, ctx) { modifies nothing }
impl (*simple.FlowBehavior).Done of (model.FlowBehavior).Done { }
