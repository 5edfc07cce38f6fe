package zzverif

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/support/log"
)

var quietRefs []string

func quietLogger() {
	for _, ref := range append(quietRefs, actRef) {
		log.SetLogLevel(activity.GetLogger(ref), log.ErrorLevel)
	}
}
