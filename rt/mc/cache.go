package mc

// cache maps a state key to the largest remaining deviation budget with which
// the state has been reached. Open addressing, grown only between executions.
type cache struct {
	keys []uint64
	vals []uint8
	n    int
	full bool
	max  int
}

func newCache(max int) *cache {
	return &cache{keys: make([]uint64, 1<<16), vals: make([]uint8, 1<<16), max: max}
}

// visit records the state and reports whether its subtree is covered already.
//
//go:norace
func (c *cache) visit(k uint64, rem uint8) bool {
	if k == 0 {
		k = 1
	}
	m := uint64(len(c.keys) - 1)
	i := (k * 0x9e3779b97f4a7c15) >> 20 & m
	for {
		if c.keys[i] == k {
			if c.vals[i] > rem { // stored as rem+1
				return true
			}
			c.vals[i] = rem + 1
			return false
		}
		if c.keys[i] == 0 {
			if c.n < len(c.keys)-len(c.keys)/8 {
				c.keys[i] = k
				c.vals[i] = rem + 1
				c.n++
			} else {
				c.full = true
			}
			return false
		}
		i = (i + 1) & m
	}
}

// grow runs between executions.
func (c *cache) grow() {
	if c.n < len(c.keys)/2 || len(c.keys) >= c.max {
		return
	}
	ok, ov := c.keys, c.vals
	c.keys = make([]uint64, 2*len(ok))
	c.vals = make([]uint8, 2*len(ok))
	m := uint64(len(c.keys) - 1)
	for j, k := range ok {
		if k == 0 {
			continue
		}
		i := (k * 0x9e3779b97f4a7c15) >> 20 & m
		for c.keys[i] != 0 {
			i = (i + 1) & m
		}
		c.keys[i] = k
		c.vals[i] = ov[j]
	}
}
