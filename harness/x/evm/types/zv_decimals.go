package types

import (
	"math/big"

	rt "github.com/initia-labs/minievm/internal/verifrt"
)

// ZV_Decimals: unit conversion between ether/gwei and the fee denom.
func ZV_Decimals() {
	d := uint8(rt.Choice("decimals", 28))
	v := rt.Big("v", 256)
	orig := new(big.Int).Set(v)
	up := ToEthersUint(d, v)
	back := FromEthersUnit(d, up)
	rt.Assert(v.Cmp(orig) == 0, "input unchanged")
	if d <= 18 {
		rt.Reach("d<=18")
		rt.Assert(back.Cmp(v) == 0, "from(to(v)) == v for decimals <= 18")
	} else {
		rt.Assert(back.Cmp(v) <= 0, "from(to(v)) <= v for decimals > 18")
		diff := new(big.Int).Sub(v, back)
		rt.Assert(diff.Cmp(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d-18)), nil)) < 0, "lost less than one unit")
	}
	rt.Observe("up", up, back)
	f := FromEthersUnit(d, v)
	t := ToEthersUint(d, f)
	rt.Assert(t.Cmp(v) <= 0, "to(from(v)) never exceeds v")
}
