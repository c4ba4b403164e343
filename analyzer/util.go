package main

import (
	"go/constant"
	"go/types"
)

func mkInt(i int64) constant.Value { return constant.MakeInt64(i) }

func constInt(v *Value) (int64, bool) {
	if v == nil || v.op != OpConst || v.cval == nil || v.cval.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.cval)
}

func constFloat(v *Value) (float64, bool) {
	if v == nil || v.op != OpConst || v.cval == nil {
		return 0, false
	}
	if v.cval.Kind() != constant.Int && v.cval.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(v.cval)
	return f, true
}

func constBool(v *Value) (bool, bool) {
	if v == nil || v.op != OpConst || v.cval == nil || v.cval.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.cval), true
}

func constStr(v *Value) (string, bool) {
	if v == nil || v.op != OpConst || v.cval == nil || v.cval.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v.cval), true
}

func isNilConst(v *Value) bool { return v != nil && v.op == OpConst && v.cval == nil }

func zeroConst(t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case b.Info()&types.IsInteger != 0:
			return constant.MakeInt64(0)
		case b.Info()&types.IsFloat != 0:
			return constant.MakeFloat64(0)
		case b.Info()&types.IsString != 0:
			return constant.MakeString("")
		}
	}
	return nil
}

func isErrorType(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
