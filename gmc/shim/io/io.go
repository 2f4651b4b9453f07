// Package io replaces the standard package under the model checker (only
// Pipe blocks and is replaced).
package io

import "gmc/vnet"

type PipeReader = vnet.IOReader
type PipeWriter = vnet.IOWriter

func Pipe() (*PipeReader, *PipeWriter) { return vnet.IOPipe() }
