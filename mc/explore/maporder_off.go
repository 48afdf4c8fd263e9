//go:build !maporder

package explore

// MapOrders is the number of repetitions when the order of map iterations
// cannot be controlled.
const MapOrders = 8

// SetMapOrder does nothing when the runtime is not instrumented.
func SetMapOrder(k int) {}
