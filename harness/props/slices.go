package props

import (
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
)

// The slice types whose elements become the elements of a list.
const nSlices = 16

var sliceNames = [nSlices]string{"[]string", "[]int", "[]uint", "[]int8", "[]int16", "[]uint16", "[]int32", "[]uint32", "[]int64",
	"[]uint64", "[]bool", "[]float32", "[]float64", "[][]byte", "[]Expression", "[]interface{}"}

// MakeSlice makes a slice of n arbitrary elements: what is given and what must be bound for each.
func MakeSlice(name string, k, n int) (given any_, elems []any_) {
	return makeSlice(name, k, n, func(name string) string { return sym.Text(name, 0, 12) })
}

func makeSlice(name string, k, n int, str func(name string) string) (given any_, elems []any_) {
	switch k {
	case 0:
		g := make([]string, n)
		for i := range g {
			g[i] = str(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 1:
		g := make([]int, n)
		for i := range g {
			g[i] = sym.Int(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 2:
		g := make([]uint, n)
		for i := range g {
			g[i] = sym.Uint(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 3:
		g := make([]int8, n)
		for i := range g {
			g[i] = sym.Int8(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 4:
		g := make([]int16, n)
		for i := range g {
			g[i] = sym.Int16(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 5:
		g := make([]uint16, n)
		for i := range g {
			g[i] = sym.Uint16(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 6:
		g := make([]int32, n)
		for i := range g {
			g[i] = sym.Int32(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 7:
		g := make([]uint32, n)
		for i := range g {
			g[i] = sym.Uint32(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 8:
		g := make([]int64, n)
		for i := range g {
			g[i] = sym.Int64(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 9:
		g := make([]uint64, n)
		for i := range g {
			g[i] = sym.Uint64(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 10:
		g := make([]bool, n)
		for i := range g {
			g[i] = sym.Bool(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 11:
		g := make([]float32, n)
		for i := range g {
			g[i] = sym.Float32(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 12:
		g := make([]float64, n)
		for i := range g {
			g[i] = sym.Float64(name)
			elems = append(elems, g[i])
		}
		return g, elems
	case 13:
		g := make([][]byte, n)
		for i := range g {
			switch i % 4 {
			case 0, 2:
				g[i] = []byte{sym.Byte(name)}
				elems = append(elems, []byte{g[i][0]})
			case 1:
				elems = append(elems, g[i])
			case 3:
				g[i] = []byte{}
				elems = append(elems, g[i])
			}
		}
		return g, elems
	case 14:
		g := make([]stmt.Expression, n)
		for i := range g {
			v := sym.Int64(name)
			g[i] = lk.Value(v)
			elems = append(elems, v)
		}
		return g, elems
	}
	g := make([]interface{}, n)
	for i := range g {
		switch i % 3 {
		case 0:
			g[i] = sym.Int64(name)
		case 1:
			g[i] = str(name)
		case 2:
			g[i] = sym.Bool(name)
		}
		elems = append(elems, g[i])
	}
	return g, elems
}
