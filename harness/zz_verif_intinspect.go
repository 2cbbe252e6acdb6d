package radix

func init() {
	vvInspectHook = func(t *Tree, what int) {
		if what&1 != 0 {
			vvNothingHeld(t, 0)
		}
		if what&2 != 0 {
			vvBalance(t, 0)
		}
		vvCover("inspected")
	}
}
