package h

import "math"

var inf = math.Inf(1)
