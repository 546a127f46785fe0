// Code generated by genshim; DO NOT EDIT.

package vsync

import "sync"

type Map = sync.Map

var OnceFunc = sync.OnceFunc

type Pool = sync.Pool
