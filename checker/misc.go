package main

import (
	"go/token"
	"go/types"
)

const tokADD = token.ADD

var errT types.Type

func (w *World) errType() types.Type {
	if errT == nil {
		n := types.NewNamed(types.NewTypeName(token.NoPos, nil, "modelError", nil), types.NewStruct(nil, nil), nil)
		sig := types.NewSignatureType(types.NewVar(token.NoPos, nil, "e", types.NewPointer(n)), nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String])), false)
		n.AddMethod(types.NewFunc(token.NoPos, nil, "Error", sig))
		errT = types.NewPointer(n)
	}
	return errT
}
