// Code generated by genshim. DO NOT EDIT.

package context

import std "context"

var Background = std.Background

type CancelCauseFunc = std.CancelCauseFunc
type CancelFunc = std.CancelFunc

var Canceled = std.Canceled

type Context = std.Context

var DeadlineExceeded = std.DeadlineExceeded
var TODO = std.TODO
