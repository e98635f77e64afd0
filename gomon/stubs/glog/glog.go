// Package glog is a stand-in for the logging library (not available offline).
package glog

import "fmt"

type Fatal string

func Fatalf(f string, a ...any)   { panic(Fatal(fmt.Sprintf(f, a...))) }
func Fatal_(a ...any)             { panic(Fatal(fmt.Sprint(a...))) }
func Exitf(f string, a ...any)    { panic(Fatal(fmt.Sprintf(f, a...))) }
func Warningf(f string, a ...any) {}
func Warning(a ...any)            {}
func Errorf(f string, a ...any)   {}
func Error(a ...any)              {}
func Infof(f string, a ...any)    {}
func Info(a ...any)               {}
