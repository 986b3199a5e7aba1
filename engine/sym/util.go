package sym

import "math"

func f64bits(f float64) uint64 { return math.Float64bits(f) }
func f64from(u uint64) float64 { return math.Float64frombits(u) }
