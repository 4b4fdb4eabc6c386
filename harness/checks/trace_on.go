//go:build verif_trace

package checks

import "github.com/henrydcase/nobs/zzverif"

func init() {
	tracer = &tracing{Start: zzverif.Start, Stop: zzverif.Stop, Every: zzverif.MarkEvery,
		Marks: func() []uint64 { return zzverif.Marks }, Rec: func() [][2]uint64 { return zzverif.Rec },
		Pos: func(id uint64) string { return zzverif.Pos[id] }}
}
