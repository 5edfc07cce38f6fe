// C15: building a flow from its description.
modset PARSE = all activity.Config.Ref, all activity.Config.Type, all definition.mapperFactory

// owner and kind (1: outgoing, 2: incoming) of a list of links, position of a link in the two lists it is part of
ghost loose C15 #lown2 [int] *definition.Task
ghost loose C15 #lkind [int] int
ghost loose C15 field #posTo int
ghost loose C15 field #posFrom int

define ltOf(t) = if t == "expression" || t == "1" then 1 else if t == "label" || t == "2" then 2 else if t == "error" || t == "3" then 3 else if t == "exprOtherwise" || t == "4" then 4 else 0
define sepT(t) = (if arr(t.toLinks) == 0 then len(t.toLinks) == 0 else allocated(t.toLinks) && #lown2[arr(t.toLinks)] == t && #lkind[arr(t.toLinks)] == 1)
  && (if arr(t.fromLinks) == 0 then len(t.fromLinks) == 0 else allocated(t.fromLinks) && #lown2[arr(t.fromLinks)] == t && #lkind[arr(t.fromLinks)] == 2)
define d15linkOf(l, r, id, from, to, ef) = l != nil && l.id == id && l.linkType == ltOf(r.Type) && l.value == r.Value && l.label == r.Label && l.fromTask == from && l.toTask == to && from != nil && to != nil
  && (ltOf(r.Type) == 1 ==> r.Value != "" && ef.NewExpr(r.Value).err == nil && l.expr == ef.NewExpr(r.Value).e)

iface (expression.Factory).NewExpr(ef, s) -> (e, err) { pure }

func definition.createLink(tasks, r, id, ef) -> (link, err) {
  requires [C15] "the lists of the tasks are their own" (forall k string {tasks[k]} {k in tasks} :: k in tasks ==> tasks[k] != nil && allocated(tasks[k]) && sepT(tasks[k]))
  ensures [C15] "either a link or an error" (err == nil) == (link != nil)
  ensures [C15] "a link of unknown tasks is refused" !(r.FromID in tasks) || !(r.ToID in tasks) ==> err != nil
  ensures [C15] "so is an expression link without a valid expression" ltOf(r.Type) == 1 && (r.Value == "" || ef.NewExpr(r.Value).err != nil) ==> err != nil
  ensures [C15] "any other link is accepted" r.FromID in tasks && r.ToID in tasks && (ltOf(r.Type) == 1 ==> r.Value != "" && ef.NewExpr(r.Value).err == nil) ==> err == nil
  ensures [C15] "the link described" err == nil ==> fresh(link) && d15linkOf(link, r, id, tasks[r.FromID], tasks[r.ToID], ef)
  ensures [C15] "appended to the outgoing links of its source" err == nil ==> (let t := tasks[r.FromID] :: len(t.toLinks) == old(len(tasks[r.FromID].toLinks)) + 1 && t.toLinks[len(t.toLinks) - 1] == link && link.#posTo == len(t.toLinks) - 1)
  ensures [C15] "and to the incoming links of its target" err == nil ==> (let t := tasks[r.ToID] :: len(t.fromLinks) == old(len(tasks[r.ToID].fromLinks)) + 1 && t.fromLinks[len(t.fromLinks) - 1] == link && link.#posFrom == len(t.fromLinks) - 1)
  ensures [C15] "after the links it has" err == nil ==> (let t := tasks[r.FromID] :: forall j int {t.toLinks[j]} :: 0 <= j && j < old(len(tasks[r.FromID].toLinks)) ==> t.toLinks[j] == old(tasks[r.FromID].toLinks[j]))
  ensures [C15] "after the incoming links it has" err == nil ==> (let t := tasks[r.ToID] :: forall j int {t.fromLinks[j]} :: 0 <= j && j < old(len(tasks[r.ToID].fromLinks)) ==> t.fromLinks[j] == old(tasks[r.ToID].fromLinks[j]))
  ensures [C15] "appended in place or to a copy" err == nil ==> (arr(tasks[r.FromID].toLinks) == old(arr(tasks[r.FromID].toLinks)) || fresh(tasks[r.FromID].toLinks)) && (arr(tasks[r.ToID].fromLinks) == old(arr(tasks[r.ToID].fromLinks)) || fresh(tasks[r.ToID].fromLinks))
  ensures [C15] "the lists of the tasks stay their own" forall k string {tasks[k]} {k in tasks} :: k in tasks ==> sepT(tasks[k])
  ensures [C15] "nothing is linked on errors" err != nil ==> (forall k string {tasks[k]} {k in tasks} :: k in tasks ==> tasks[k].toLinks == old(tasks[k].toLinks) && tasks[k].fromLinks == old(tasks[k].fromLinks))
  sets [C15] link.#posTo := old(len(tasks[r.FromID].toLinks)) when err == nil
  sets [C15] link.#posFrom := old(len(tasks[r.ToID].fromLinks)) when err == nil
  sets [C15] #lown2[arr(tasks[r.FromID].toLinks)] := tasks[r.FromID] when err == nil
  sets [C15] #lkind[arr(tasks[r.FromID].toLinks)] := 1 when err == nil
  sets [C15] #lown2[arr(tasks[r.ToID].fromLinks)] := tasks[r.ToID] when err == nil
  sets [C15] #lkind[arr(tasks[r.ToID].fromLinks)] := 2 when err == nil
  quiet
  modifies tasks[r.FromID].toLinks, tasks[r.FromID].toLinks[*], tasks[r.ToID].fromLinks, tasks[r.ToID].fromLinks[*]
}

// tasks
import activityp "core/activity"
import expressionp "core/data/expression"
func definition.GetDataResolver() -> (r) { pure }
extern expressionp.NewFactory(r) -> (f) { pure }
define flowEf() = expressionp.NewFactory(definition.GetDataResolver())
extern activityp.Get(ref) -> (a) { pure }
define d15known(cfg) = activityp.Get(cfg.Ref) != nil
define validType(m, t) = util.modelValidators != nil && m in util.modelValidators && util.modelValidators[m].IsValidTaskType(t)
define d15taskOf(t, r, def) = t != nil && t.id == r.ID && t.name == r.Name && t.typeID == r.Type && t.definition == def
  && (r.Type != "" ==> validType(def.modelID, r.Type))
  && (r.ActivityCfgRep == nil) == (t.activityCfg == nil)

func definition.createActivityConfig(task, rep, ef) -> (cfg, err) {
  ensures [C15] "either a configuration or an error" (err == nil) == (cfg != nil)
  ensures [C15] "an unknown activity is refused" err == nil ==> d15known(rep)
  ensures [C15] "the activity described" err == nil ==> cfg.Name == task.name && cfg.Type == rep.Type && fresh(cfg)
  modifies rep.Ref, rep.Type, task.activityCfg, all definition.mapperFactory
  quiet
  may_panic
}
func definition.createTask(def, rep, ef) -> (t, err) {
  ensures [C15] "either a task or an error" (err == nil) == (t != nil)
  ensures [C15] "an unsupported task type is refused" rep.Type != "" && !validType(def.modelID, rep.Type) ==> err != nil
  ensures [C15] "the task described" err == nil ==> fresh(t) && d15taskOf(t, rep, def)
  ensures [C15] "with a known activity" err == nil && rep.ActivityCfgRep != nil ==> d15known(rep.ActivityCfgRep)
  ensures [C15] "not linked yet" err == nil ==> arr(t.toLinks) == 0 && len(t.toLinks) == 0 && arr(t.fromLinks) == 0 && len(t.fromLinks) == 0
  modifies def.explicitReply, rep.ActivityCfgRep.Ref, rep.ActivityCfgRep.Type, all definition.mapperFactory
  quiet
  may_panic
}

// a section: tasks by id, links by number, counted from off
define d15noLinks(lm) = lm != nil && forall k int {k in lm} :: !(k in lm)
define distinctIDs(ts) = forall i int, j int {ts[i], ts[j]} :: 0 <= i && i < j && j < len(ts) ==> ts[i].ID != ts[j].ID
define d15tasksOK(m, ts, n, def) = m != nil && (forall i int {ts[i]} :: 0 <= i && i < n ==> ts[i].ID in m && d15taskOf(m[ts[i].ID], ts[i], def))
  && (forall i int {ts[i]} :: 0 <= i && i < n && ts[i].ActivityCfgRep != nil ==> d15known(ts[i].ActivityCfgRep))
  && (forall k string {m[k]} {k in m} :: k in m ==> m[k] != nil && fresh(m[k]) && m[k].id == k)
  && (forall k string {k in m} :: k in m ==> exists i int {ts[i]} :: 0 <= i && i < n && ts[i].ID == k)
define d15unlinked(m) = forall k string {m[k]} {k in m} :: k in m ==> arr(m[k].toLinks) == 0 && len(m[k].toLinks) == 0 && arr(m[k].fromLinks) == 0 && len(m[k].fromLinks) == 0
define d15linksOK(lm, m, ls, n, off) = lm != nil && (forall i int {ls[i]} :: 0 <= i && i < n ==> off + i in lm && d15linkOf(lm[off + i], ls[i], off + i, m[ls[i].FromID], m[ls[i].ToID], flowEf()) && ls[i].FromID in m && ls[i].ToID in m)
  && (forall k int {k in lm} {lm[k]} :: (k in lm) == (off <= k && k < off + n))
  && (forall k int {lm[k]} :: k in lm ==> fresh(lm[k]) && lm[k].id == k)
define d15outOK(lm, m, n, off) = forall k string, j int {m[k].toLinks[j]} :: k in m && 0 <= j && j < len(m[k].toLinks) ==> (let l := m[k].toLinks[j] :: l != nil && l.id in lm && lm[l.id] == l && l.fromTask == m[k] && l.#posTo == j)
define d15inOK(lm, m, n, off) = forall k string, j int {m[k].fromLinks[j]} :: k in m && 0 <= j && j < len(m[k].fromLinks) ==> (let l := m[k].fromLinks[j] :: l != nil && l.id in lm && lm[l.id] == l && l.toTask == m[k] && l.#posFrom == j)
define d15posOK(lm) = forall k int {lm[k]} :: k in lm ==> 0 <= lm[k].#posTo && lm[k].#posTo < len(lm[k].fromTask.toLinks) && lm[k].fromTask.toLinks[lm[k].#posTo] == lm[k] && 0 <= lm[k].#posFrom && lm[k].#posFrom < len(lm[k].toTask.fromLinks) && lm[k].toTask.fromLinks[lm[k].#posFrom] == lm[k]
define orderOut(m) = forall k string, i int, j int {m[k].toLinks[i], m[k].toLinks[j]} :: k in m && 0 <= i && i < j && j < len(m[k].toLinks) ==> m[k].toLinks[i].id < m[k].toLinks[j].id
define orderIn(m) = forall k string, i int, j int {m[k].fromLinks[i], m[k].fromLinks[j]} :: k in m && 0 <= i && i < j && j < len(m[k].fromLinks) ==> m[k].fromLinks[i].id < m[k].fromLinks[j].id
define sepAll(m) = forall k string {m[k]} {k in m} :: k in m ==> m[k] != nil && allocated(m[k]) && sepT(m[k])
define freshLists(m) = forall k string {m[k]} {k in m} :: k in m ==> (arr(m[k].toLinks) == 0 || fresh(m[k].toLinks)) && (arr(m[k].fromLinks) == 0 || fresh(m[k].fromLinks))
define apartT(a, b) = forall k string, h string {a[k], b[h]} :: k in a && h in b ==> a[k] != b[h]

func definition.NewDefinition(rep) -> (def, err) {
  assumes "the tasks and links are given, the ids of a section are distinct" distinctIDs(rep.Tasks) && (rep.ErrorHandler != nil ==> distinctIDs(rep.ErrorHandler.Tasks))
  ensures [C15] "name, model and interface are those described" err == nil ==> def != nil && fresh(def) && def.name == rep.Name && def.modelID == rep.ModelID && def.metadata == rep.Metadata
  ensures [C15] "the tasks described" err == nil ==> d15tasksOK(def.tasks, rep.Tasks, len(rep.Tasks), def)
  ensures [C15] "the links described" err == nil ==> d15linksOK(def.links, def.tasks, rep.Links, len(rep.Links), 0)
  ensures [C15] "every link once among the outgoing links of its source" err == nil ==> d15outOK(def.links, def.tasks, len(rep.Links), 0) && d15posOK(def.links)
  ensures [C15] "every link once among the incoming links of its target" err == nil ==> d15inOK(def.links, def.tasks, len(rep.Links), 0)
  ensures [C15] "in the order described" err == nil ==> orderOut(def.tasks) && orderIn(def.tasks)
  ensures [C15] "an error handler exactly if described" err == nil ==> (def.errorHandler == nil) == (rep.ErrorHandler == nil)
  ensures [C15] "the tasks of the error handler" err == nil && rep.ErrorHandler != nil ==> d15tasksOK(def.errorHandler.tasks, rep.ErrorHandler.Tasks, len(rep.ErrorHandler.Tasks), def)
  ensures [C15] "the links of the error handler, with ids of their own" err == nil && rep.ErrorHandler != nil ==> d15linksOK(def.errorHandler.links, def.errorHandler.tasks, rep.ErrorHandler.Links, len(rep.ErrorHandler.Links), len(rep.Links))
  ensures [C15] "each once in the lists of its tasks" err == nil && rep.ErrorHandler != nil ==> d15outOK(def.errorHandler.links, def.errorHandler.tasks, len(rep.ErrorHandler.Links), len(rep.Links)) && d15inOK(def.errorHandler.links, def.errorHandler.tasks, len(rep.ErrorHandler.Links), len(rep.Links)) && d15posOK(def.errorHandler.links)
  ensures [C15] "in the order described, too" err == nil && rep.ErrorHandler != nil ==> orderOut(def.errorHandler.tasks) && orderIn(def.errorHandler.tasks)
  loopinv <d new *definition.Definition> d.name == rep.Name && d.modelID == rep.ModelID && d.metadata == rep.Metadata && fresh(d)
  loopinv <d new *definition.Definition> over []*definition.TaskRep d.errorHandler == nil ==> d15tasksOK(d.tasks, rep.Tasks, $i, d) && d15unlinked(d.tasks)
  loopinv <d new *definition.Definition> over []*definition.TaskRep d.errorHandler == nil ==> d15noLinks(d.links)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler == nil ==> d15tasksOK(d.tasks, rep.Tasks, len(rep.Tasks), d)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler == nil ==> d15linksOK(d.links, d.tasks, rep.Links, $i, 0) && sepAll(d.tasks)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler == nil ==> d15outOK(d.links, d.tasks, $i, 0) && d15inOK(d.links, d.tasks, $i, 0) && d15posOK(d.links)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler == nil ==> orderOut(d.tasks) && orderIn(d.tasks)
  loopinv <d new *definition.Definition> d.errorHandler != nil ==> d15tasksOK(d.tasks, rep.Tasks, len(rep.Tasks), d)
  loopinv <d new *definition.Definition> d.errorHandler != nil ==> d15linksOK(d.links, d.tasks, rep.Links, len(rep.Links), 0) && sepAll(d.tasks)
  loopinv <d new *definition.Definition> d.errorHandler != nil ==> d15outOK(d.links, d.tasks, len(rep.Links), 0) && d15inOK(d.links, d.tasks, len(rep.Links), 0) && d15posOK(d.links)
  loopinv <d new *definition.Definition> d.errorHandler != nil ==> orderOut(d.tasks) && orderIn(d.tasks)
  loopinv <d new *definition.Definition> d.errorHandler != nil ==> fresh(d.errorHandler) && apartT(d.tasks, d.errorHandler.tasks) && d.errorHandler.tasks != d.tasks && d.errorHandler.links != d.links
  loopinv <d new *definition.Definition> over []*definition.TaskRep d.errorHandler != nil ==> d15tasksOK(d.errorHandler.tasks, rep.ErrorHandler.Tasks, $i, d) && d15unlinked(d.errorHandler.tasks)
  loopinv <d new *definition.Definition> over []*definition.TaskRep d.errorHandler != nil ==> d15noLinks(d.errorHandler.links)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler != nil ==> d15tasksOK(d.errorHandler.tasks, rep.ErrorHandler.Tasks, len(rep.ErrorHandler.Tasks), d)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler != nil ==> d15linksOK(d.errorHandler.links, d.errorHandler.tasks, rep.ErrorHandler.Links, $i, len(rep.Links)) && sepAll(d.errorHandler.tasks)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler != nil ==> d15outOK(d.errorHandler.links, d.errorHandler.tasks, $i, len(rep.Links)) && d15inOK(d.errorHandler.links, d.errorHandler.tasks, $i, len(rep.Links)) && d15posOK(d.errorHandler.links)
  loopinv <d new *definition.Definition> over []*definition.LinkRep d.errorHandler != nil ==> orderOut(d.errorHandler.tasks) && orderIn(d.errorHandler.tasks)
  loopinv <d new *definition.Definition> freshLists(d.tasks) && (d.errorHandler != nil ==> freshLists(d.errorHandler.tasks))
  sets [C22] #built := #built + 1
  sets [C22] #builtRep := box(rep)
  sets [C22] #builtDef := box(def)
  sets [C22] #builtErr := err
  modifies @PARSE, #posTo, #posFrom, #lown2, #lkind
  quiet
}
