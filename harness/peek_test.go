package zzverif

// Access to unexported fields by name (no hooks in the code under test).

import (
	"reflect"
	"unsafe"

	"github.com/project-flogo/flow/instance"
)

// peek returns the named field of the struct p points to; settable.
func peek(p interface{}, names ...string) reflect.Value {
	v := reflect.ValueOf(p)
	for _, n := range names {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		f := v.FieldByName(n)
		if !f.IsValid() {
			panic("no field " + n)
		}
		v = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	return v
}

func subID(i *instance.Instance) int           { return int(peek(i, "subflowId").Int()) }
func linkSub(l *instance.LinkInst) int         { return int(peek(l, "flowInst", "subflowId").Int()) }
func taskFlow(t *instance.TaskInst) *instance.Instance { return t.ActivityHost().(*instance.Instance) }
func rootOf(i *instance.IndependentInstance) *instance.Instance { return i.Instance }
func trackerOf(i *instance.IndependentInstance) instance.ChangeTracker {
	return peek(i, "changeTracker").Interface().(instance.ChangeTracker)
}
func setTracker(i *instance.IndependentInstance, t instance.ChangeTracker) {
	peek(i, "changeTracker").Set(reflect.ValueOf(t))
}
func subflowsOf(i *instance.IndependentInstance) map[int]*instance.Instance {
	return peek(i, "subflows").Interface().(map[int]*instance.Instance)
}
func tasksOf(i *instance.Instance) map[string]*instance.TaskInst {
	return peek(i, "taskInsts").Interface().(map[string]*instance.TaskInst)
}
func linksOf(i *instance.Instance) map[int]*instance.LinkInst {
	return peek(i, "linkInsts").Interface().(map[int]*instance.LinkInst)
}
func attrsOf(i *instance.Instance) map[string]interface{} {
	return peek(i, "attrs").Interface().(map[string]interface{})
}
func masterOf(i *instance.Instance) *instance.IndependentInstance {
	return peek(i, "master").Interface().(*instance.IndependentInstance)
}
