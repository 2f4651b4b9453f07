// Code generated by genshim. DO NOT EDIT.

package rand

import std "crypto/rand"

var Int = std.Int
var Prime = std.Prime
var Text = std.Text
