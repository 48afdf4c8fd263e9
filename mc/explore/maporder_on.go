//go:build maporder

package explore

import "runtime"

// MapOrders is the number of controlled map iteration orders.
const MapOrders = 8

// SetMapOrder makes all map iterations start at entry k (1 <= k <= MapOrders).
// The value 0 restores the runtime's random order.
func SetMapOrder(k int) { runtime.VerifMapOrder(uint64(k)) }
