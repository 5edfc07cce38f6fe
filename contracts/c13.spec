// C13: scopes and resolvers.

import strings "strings"
import path "core/data/path"

extern strings.HasPrefix(s, p) -> (b) { pure }
axiom forall k string {"_W." + k} :: strings.HasPrefix("_W." + k, "_W.") && substr("_W." + k, 3, len("_W." + k)) == k
axiom forall x string {strings.HasPrefix(x, "_W.")} :: strings.HasPrefix(x, "_W.") ==> x == "_W." + substr(x, 3, len(x))

func (*instance.Instance).GetValue(inst, name) -> (v, ok) {
  ensures [C13] "a name that was set is read back with its value" inst.attrs != nil && name in inst.attrs ==> ok && v == inst.attrs[name]
  ensures [C13] "any other name is missing, unless the definition declares it" !(inst.attrs != nil && name in inst.attrs) && (inst.flowDef.attrs == nil || !(name in inst.flowDef.attrs)) ==> !ok
  modifies nothing
}
func (*instance.Instance).UpdateAttrs(inst, m) {
  assumes "the instance has a data map of its own" inst.attrs != nil && inst.attrs != m
  ensures [C13,C14] "every given value is stored" forall k string {k in inst.attrs} {inst.attrs[k]} :: k in m ==> k in inst.attrs && inst.attrs[k] == m[k]
  ensures [C13] "no other name changes" forall k string {k in inst.attrs} {inst.attrs[k]} :: !(k in m) ==> (k in inst.attrs) == old(k in inst.attrs) && inst.attrs[k] == old(inst.attrs[k])
  modifies inst.attrs[*], @TRACK
  loopinv forall k string {k in inst.attrs} {inst.attrs[k]} :: k in $vis ==> k in inst.attrs && inst.attrs[k] == m[k]
  loopinv forall k string {k in inst.attrs} {inst.attrs[k]} :: !(k in $vis) ==> (k in inst.attrs) == old(k in inst.attrs) && inst.attrs[k] == old(inst.attrs[k])
  loopinv forall k string {k in m} {m[k]} :: (k in m) == old(k in m) && m[k] == old(m[k])
}
func instance.NewWorkingDataScope(parent) -> (s) {
  ensures [C13] "empty working data of its own, in front of the given scope" s != nil && fresh(s) && fresh(s.workingData) && s.workingData != nil && s.parent == parent && (forall k string {k in s.workingData} :: !(k in s.workingData))
  modifies nothing
}
func (*instance.WorkingDataScope).GetValue(s, name) -> (v, ok) {
  ensures [C13] "working data is readable under its namespace" forall k string {"_W." + k} :: name == "_W." + k ==> ok == (k in s.workingData) && (ok ==> v == s.workingData[k])
  ensures [C13] "all other names are those of the flow" !strings.HasPrefix(name, "_W.") ==> v == s.parent.GetValue(name).v && ok == s.parent.GetValue(name).ok
  ensures [C13] "nothing of the flow is under the namespace" strings.HasPrefix(name, "_W.") && ok ==> exists k string {k in s.workingData} :: k in s.workingData && name == "_W." + k
  modifies nothing
}
func (*instance.WorkingDataScope).GetWorkingValue(s, name) -> (v, ok) {
  ensures [C13] "what is stored, or missing" ok == (name in s.workingData) && (ok ==> v == s.workingData[name])
  modifies nothing
}
func (*instance.WorkingDataScope).SetWorkingValue(s, name, v) {
  assumes "the scope has a map" s.workingData != nil
  ensures [C13] "the value is stored" name in s.workingData && s.workingData[name] == v
  ensures [C13] "no other name changes" forall k string {k in s.workingData} {s.workingData[k]} :: k != name ==> (k in s.workingData) == old(k in s.workingData) && s.workingData[k] == old(s.workingData[k])
  modifies s.workingData[*]
}
func (*instance.TaskInst).SetWorkingData(ti, key, v) {
  inline
  assumes "a scope has a map" ti.workingData != nil ==> ti.workingData.workingData != nil
  ensures [C13] "the value is stored in the working data of this task" ti.workingData != nil && key in ti.workingData.workingData && ti.workingData.workingData[key] == v
  ensures [C13] "which are its own" ti.workingData == old(ti.workingData) || fresh(ti.workingData) && fresh(ti.workingData.workingData)
  ensures [C13] "no other name changes" old(ti.workingData) != nil ==> forall k string {k in ti.workingData.workingData} {ti.workingData.workingData[k]} :: k != key ==> (k in ti.workingData.workingData) == old(k in ti.workingData.workingData) && ti.workingData.workingData[k] == old(ti.workingData.workingData[k])
  ensures [C13] "nor is there any" old(ti.workingData) == nil ==> forall k string {k in ti.workingData.workingData} :: k in ti.workingData.workingData ==> k == key
  modifies ti.workingData, ti.workingData.workingData[*]
}
func (*instance.TaskInst).GetWorkingData(ti, key) -> (v, ok) {
  inline
  ensures [C13] "what is stored, or missing" ok == (ti.workingData != nil && key in ti.workingData.workingData) && (ok ==> v == ti.workingData.workingData[key])
  modifies nothing
}

// ---- references in expressions
extern path.GetValue(v, p) -> (r, err) { pure }
func (*definition.FlowResolver).Resolve(r, scope, item, value) -> (v, err) {
  ensures [C13] "the value of that name, or an error" (err == nil) == scope.GetValue(value).ok && (err == nil ==> v == scope.GetValue(value).v)
  modifies nothing
}
define actName(item, value) = if len(value) > 0 then "_A." + item + "." + value else "_A." + item
func (*definition.ActivityResolver).Resolve(r, scope, item, value) -> (v, err) {
  ensures [C13] "the output of that activity, or all accumulated ones, or an error" (err == nil) == scope.GetValue(actName(item, value)).ok && (err == nil ==> v == scope.GetValue(actName(item, value)).v)
  modifies nothing
}
func (*definition.FlowContextResolver).Resolve(r, scope, item, value) -> (v, err) {
  ensures [C13,C14] "the context value of that name, or an error" (err == nil) == scope.GetValue("_fctx." + item).ok && (err == nil ==> v == scope.GetValue("_fctx." + item).v)
  modifies nothing
}
define errName(item) = if item == "" then "_E" else "_E." + item
func (*definition.ErrorResolver).Resolve(r, scope, item, value) -> (v, err) {
  ensures [C13,C06] "an error if there is none of that task" !scope.GetValue(errName(item)).ok ==> err != nil
  ensures [C13,C06] "the error of that task or of the flow" scope.GetValue(errName(item)).ok && value == "" ==> err == nil && v == scope.GetValue(errName(item)).v
  ensures [C13,C06] "or its property" scope.GetValue(errName(item)).ok && value != "" ==> v == path.GetValue(scope.GetValue(errName(item)).v, "." + value).r && err == path.GetValue(scope.GetValue(errName(item)).v, "." + value).err
  modifies nothing
}
func (*definition.IteratorResolver).Resolve(r, scope, item, field) -> (v, err) {
  ensures [C13] "an error outside of an iteration" !scope.GetValue("_W.iteration").ok ==> err != nil
  ensures [C13] "the iteration value of that name" scope.GetValue("_W.iteration").ok && len(field) == 0 ==> v == path.GetValue(scope.GetValue("_W.iteration").v, "." + item).r && err == path.GetValue(scope.GetValue("_W.iteration").v, "." + item).err
  ensures [C13] "or its property" scope.GetValue("_W.iteration").ok && len(field) > 0 ==> v == path.GetValue(scope.GetValue("_W.iteration").v, "." + item + "." + field).r && err == path.GetValue(scope.GetValue("_W.iteration").v, "." + item + "." + field).err
  modifies nothing
}
