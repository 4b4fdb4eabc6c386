// Package zzverif gives tests access to internals.
package zzverif
