package hspeed

import "math"

func f32(b uint32) float32 { return math.Float32frombits(b) }
func f64(b uint64) float64 { return math.Float64frombits(b) }
