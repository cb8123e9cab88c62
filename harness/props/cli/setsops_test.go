package cli

// Written by hand once per element type: the sets of the repository are copies of one template.

import "sigs.k8s.io/instrumentation-tools/notstdlib/sets"

var setOps = map[string]func() *ops{
	"Byte": func() *ops {
		return adapt[sets.Byte, byte](universeByte, sets.NewByte, sets.ByteKeySet, sets.Byte.Insert, sets.Byte.Delete, sets.Byte.Has, sets.Byte.HasAll, sets.Byte.HasAny,
			sets.Byte.Difference, sets.Byte.Union, sets.Byte.Intersection, sets.Byte.IsSuperset, sets.Byte.Equal, sets.Byte.List, sets.Byte.UnsortedList, sets.Byte.PopAny, sets.Byte.Len)
	},
	"Int": func() *ops {
		return adapt[sets.Int, int](universeInt, sets.NewInt, sets.IntKeySet, sets.Int.Insert, sets.Int.Delete, sets.Int.Has, sets.Int.HasAll, sets.Int.HasAny,
			sets.Int.Difference, sets.Int.Union, sets.Int.Intersection, sets.Int.IsSuperset, sets.Int.Equal, sets.Int.List, sets.Int.UnsortedList, sets.Int.PopAny, sets.Int.Len)
	},
	"Int32": func() *ops {
		return adapt[sets.Int32, int32](universeInt32, sets.NewInt32, sets.Int32KeySet, sets.Int32.Insert, sets.Int32.Delete, sets.Int32.Has, sets.Int32.HasAll, sets.Int32.HasAny,
			sets.Int32.Difference, sets.Int32.Union, sets.Int32.Intersection, sets.Int32.IsSuperset, sets.Int32.Equal, sets.Int32.List, sets.Int32.UnsortedList, sets.Int32.PopAny, sets.Int32.Len)
	},
	"Int64": func() *ops {
		return adapt[sets.Int64, int64](universeInt64, sets.NewInt64, sets.Int64KeySet, sets.Int64.Insert, sets.Int64.Delete, sets.Int64.Has, sets.Int64.HasAll, sets.Int64.HasAny,
			sets.Int64.Difference, sets.Int64.Union, sets.Int64.Intersection, sets.Int64.IsSuperset, sets.Int64.Equal, sets.Int64.List, sets.Int64.UnsortedList, sets.Int64.PopAny, sets.Int64.Len)
	},
	"String": func() *ops {
		return adapt[sets.String, string](universeString, sets.NewString, sets.StringKeySet, sets.String.Insert, sets.String.Delete, sets.String.Has, sets.String.HasAll, sets.String.HasAny,
			sets.String.Difference, sets.String.Union, sets.String.Intersection, sets.String.IsSuperset, sets.String.Equal, sets.String.List, sets.String.UnsortedList, sets.String.PopAny, sets.String.Len)
	},
	"Uint64": func() *ops {
		return adapt[sets.Uint64, uint64](universeUint64, sets.NewUint64, sets.Uint64KeySet, sets.Uint64.Insert, sets.Uint64.Delete, sets.Uint64.Has, sets.Uint64.HasAll, sets.Uint64.HasAny,
			sets.Uint64.Difference, sets.Uint64.Union, sets.Uint64.Intersection, sets.Uint64.IsSuperset, sets.Uint64.Equal, sets.Uint64.List, sets.Uint64.UnsortedList, sets.Uint64.PopAny, sets.Uint64.Len)
	},
}
