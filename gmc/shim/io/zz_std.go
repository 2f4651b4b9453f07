// Code generated by genshim. DO NOT EDIT.

package io

import std "io"

type ByteReader = std.ByteReader
type ByteScanner = std.ByteScanner
type ByteWriter = std.ByteWriter
type Closer = std.Closer

var Copy = std.Copy
var CopyBuffer = std.CopyBuffer
var CopyN = std.CopyN
var Discard = std.Discard
var EOF = std.EOF
var ErrClosedPipe = std.ErrClosedPipe
var ErrNoProgress = std.ErrNoProgress
var ErrShortBuffer = std.ErrShortBuffer
var ErrShortWrite = std.ErrShortWrite
var ErrUnexpectedEOF = std.ErrUnexpectedEOF
var LimitReader = std.LimitReader

type LimitedReader = std.LimitedReader

var MultiReader = std.MultiReader
var MultiWriter = std.MultiWriter
var NewOffsetWriter = std.NewOffsetWriter
var NewSectionReader = std.NewSectionReader
var NopCloser = std.NopCloser

type OffsetWriter = std.OffsetWriter

var ReadAll = std.ReadAll
var ReadAtLeast = std.ReadAtLeast

type ReadCloser = std.ReadCloser

var ReadFull = std.ReadFull

type ReadSeekCloser = std.ReadSeekCloser
type ReadSeeker = std.ReadSeeker
type ReadWriteCloser = std.ReadWriteCloser
type ReadWriteSeeker = std.ReadWriteSeeker
type ReadWriter = std.ReadWriter
type Reader = std.Reader
type ReaderAt = std.ReaderAt
type ReaderFrom = std.ReaderFrom
type RuneReader = std.RuneReader
type RuneScanner = std.RuneScanner
type SectionReader = std.SectionReader

const SeekCurrent = std.SeekCurrent
const SeekEnd = std.SeekEnd
const SeekStart = std.SeekStart

type Seeker = std.Seeker
type StringWriter = std.StringWriter

var TeeReader = std.TeeReader

type WriteCloser = std.WriteCloser
type WriteSeeker = std.WriteSeeker

var WriteString = std.WriteString

type Writer = std.Writer
type WriterAt = std.WriterAt
type WriterTo = std.WriterTo
