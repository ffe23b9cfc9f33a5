package ref

import "math/big"

// Str is the decimal form of an element. (Element.String of the field library
// goes through a buffer that all goroutines share.)
func Str(x F) string { return x.ToBigIntRegular(new(big.Int)).String() }
