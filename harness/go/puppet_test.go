package zzverif

// The "puppet" contract: a tiny interpreter, assembled here by hand, which
// executes the script it is given as calldata (or, for its constructor, as
// bytes appended to the init code). It lets a specification behaviour be turned
// into one real EVM message: nested calls, static and delegate calls, caught
// and uncaught reverts, storage, transient storage, logs, creates and
// self-destructs, all in one transaction.

import (
	"encoding/binary"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
)

// ---------------------------------------------------------------- assembler

type asm struct {
	code   []byte
	labels map[string]int
	fixups map[int]string
}

func newAsm() *asm { return &asm{labels: map[string]int{}, fixups: map[int]string{}} }

const (
	opSTOP         = 0x00
	opADD          = 0x01
	opSUB          = 0x03
	opLT           = 0x10
	opGT           = 0x11
	opEQ           = 0x14
	opISZERO       = 0x15
	opSHR          = 0x1c
	opADDRESS      = 0x30
	opBALANCE      = 0x31
	opCALLER       = 0x33
	opCALLDATASIZE = 0x36
	opCALLDATACOPY = 0x37
	opCODESIZE     = 0x38
	opCODECOPY     = 0x39
	opEXTCODESIZE  = 0x3b
	opRETSIZE      = 0x3d
	opRETCOPY      = 0x3e
	opBLOCKHASH    = 0x40
	opPOP          = 0x50
	opMLOAD        = 0x51
	opMSTORE       = 0x52
	opMSTORE8      = 0x53
	opSLOAD        = 0x54
	opSSTORE       = 0x55
	opJUMP         = 0x56
	opJUMPI        = 0x57
	opGAS          = 0x5a
	opJUMPDEST     = 0x5b
	opTLOAD        = 0x5c
	opTSTORE       = 0x5d
	opMCOPY        = 0x5e
	opDUP1         = 0x80
	opSWAP1        = 0x90
	opLOG1         = 0xa1
	opCREATE       = 0xf0
	opCALL         = 0xf1
	opRETURN       = 0xf3
	opDELEGATECALL = 0xf4
	opCREATE2      = 0xf5
	opSTATICCALL   = 0xfa
	opREVERT       = 0xfd
	opINVALID      = 0xfe
	opSELFDESTRUCT = 0xff
)

func (a *asm) op(ops ...byte) *asm { a.code = append(a.code, ops...); return a }

// push emits a PUSH2 of v.
func (a *asm) push(v int) *asm {
	a.code = append(a.code, 0x61, byte(v>>8), byte(v))
	return a
}
func (a *asm) pushLabel(l string) *asm {
	a.code = append(a.code, 0x61)
	a.fixups[len(a.code)] = l
	a.code = append(a.code, 0, 0)
	return a
}
func (a *asm) label(l string) *asm { a.labels[l] = len(a.code); return a.op(opJUMPDEST) }
func (a *asm) mark(l string) *asm  { a.labels[l] = len(a.code); return a }
func (a *asm) jump(l string) *asm  { return a.pushLabel(l).op(opJUMP) }
func (a *asm) jumpi(l string) *asm { return a.pushLabel(l).op(opJUMPI) }
func (a *asm) bytes() []byte {
	out := append([]byte{}, a.code...)
	for pos, l := range a.fixups {
		t, ok := a.labels[l]
		if !ok {
			panic("label " + l)
		}
		binary.BigEndian.PutUint16(out[pos:], uint16(t))
	}
	return out
}

// memory layout
const (
	mPTR  = 0x00 // script pointer (memory address)
	mEND  = 0x20 // end of the script (memory address)
	mOUT  = 0x40 // output pointer
	mBASE = 0x60 // output base
	mTMP  = 0x80
	mPROG = 0x100
)

// script opcodes
const (
	psSTOP = iota
	psSSTORE
	psTSTORE
	psLOG
	psCALL
	psREVERT
	psINVALID
	psDESTRUCT
	psCREATE
	psCREATE2
	psSLOAD
	psTLOAD
	psBALANCE
	psCODESIZE
	psCALLER
	psBLOCKHASH
	psADDRESS
	psREVERTOUT
	psTCOPY
	psLOG0
	psLOG2
	psLOG4
	psN
)

// arg pushes the 32-byte word at the script pointer and advances the pointer.
func (a *asm) arg() *asm {
	a.push(mPTR).op(opMLOAD, opDUP1, opMLOAD, opSWAP1)  // val ptr
	return a.push(32).op(opADD).push(mPTR).op(opMSTORE) // val
}

// emit pops a word and appends it to the output buffer.
func (a *asm) emit() *asm {
	a.push(mOUT).op(opMLOAD, opMSTORE) // mem[out]=val
	return a.push(mOUT).op(opMLOAD).push(32).op(opADD).push(mOUT).op(opMSTORE)
}

// interp emits the interpreter; atStop is emitted for STOP / end of script.
func (a *asm) interp(atStop func()) {
	a.label("loop")
	// if ptr >= end goto stop
	a.push(mEND).op(opMLOAD).push(mPTR).op(opMLOAD, opLT, opISZERO).jumpi("stop") // ptr<end ?
	// opcode byte
	a.push(mPTR).op(opMLOAD, opDUP1, opMLOAD) // ptr word
	a.push(248).op(opSHR)                     // ptr op
	a.op(opSWAP1).push(1).op(opADD).push(mPTR).op(opMSTORE)
	// dispatch
	names := []string{"stop", "sstore", "tstore", "log", "call", "revert", "invalid", "destruct", "create", "create2", "sload", "tload", "balance", "codesize", "caller", "blockhash", "address", "revertout", "tcopy", "log0", "log2", "log4"}
	for i, n := range names {
		a.op(opDUP1).push(i).op(opEQ).jumpi("x_" + n)
	}
	a.push(0).push(0).op(opREVERT) // unknown operation
	begin := func(n string) { a.label("x_" + n).op(opPOP) }

	begin("sstore")
	a.arg().arg().op(opSWAP1, opSSTORE).jump("loop") // key on top
	begin("tstore")
	a.arg().arg().op(opSWAP1, opTSTORE).jump("loop")
	begin("log")
	a.arg().op(opDUP1).push(mTMP).op(opMSTORE) // the data repeats the topic
	a.push(32).push(mTMP).op(opLOG1).jump("loop")
	for _, k := range []int{0, 2, 4} { // the data, then the topics from the last to the first
		begin([]string{"log0", "", "log2", "", "log4"}[k])
		a.arg().push(mTMP).op(opMSTORE)
		for i := 0; i < k; i++ {
			a.arg()
		}
		a.push(32).push(mTMP).op(opLOG1 - 1 + byte(k)).jump("loop")
	}
	begin("tcopy")
	a.arg().op(opDUP1, opTLOAD, opSWAP1, opSSTORE).jump("loop")
	begin("revert")
	a.push(0).push(0).op(opREVERT)
	begin("invalid")
	a.op(opINVALID)
	begin("destruct")
	a.arg().op(opSELFDESTRUCT)
	begin("sload")
	a.arg().op(opSLOAD).emit().jump("loop")
	begin("tload")
	a.arg().op(opTLOAD).emit().jump("loop")
	begin("balance")
	a.arg().op(opBALANCE).emit().jump("loop")
	begin("codesize")
	a.arg().op(opEXTCODESIZE).emit().jump("loop")
	begin("blockhash")
	a.arg().op(opBLOCKHASH).emit().jump("loop")
	begin("caller")
	a.op(opCALLER).emit().jump("loop")
	begin("address")
	a.op(opADDRESS).emit().jump("loop")

	// call: kind strict gas target value len payload
	begin("call")
	a.arg().push(mTMP).op(opMSTORE)      // kind
	a.arg().push(mTMP + 32).op(opMSTORE) // strict
	// stack layout for CALL: gas addr value argOff argLen retOff retLen
	// read gas, target, value, len in order, leaving on stack: len on top
	a.arg().arg().arg().arg() // gas target value len
	// payload offset = mem[PTR]; advance
	a.push(mPTR).op(opMLOAD)            // gas target value len off
	a.op(opDUP1).op(opDUP1 + 2)         // .. len off off len
	a.op(opADD).push(mPTR).op(opMSTORE) // gas target value len off
	a.push(0).push(0)                   // gas target value len off 0 0
	// want stack (top first): gas addr value off len 0 0
	// currently top first: 0 0 off len value target gas
	a.op(opDUP1 + 3).op(opDUP1 + 3)
	// now top first: off len 0 0 off len value target gas
	a.push(mTMP).op(opMLOAD).jumpi("x_call_nv")
	// plain call: push value, target, gas
	a.op(opDUP1 + 6)  // value: top: off len 0 0 off len value -> DUP7
	a.op(opDUP1 + 8)  // target: top: value off len 0 0 off len value target -> DUP9
	a.op(opDUP1 + 10) // gas
	a.op(opCALL).jump("x_call_done")
	a.label("x_call_nv")
	a.op(opDUP1 + 7) // target: off len 0 0 off len value target -> DUP8
	a.op(opDUP1 + 9) // gas : target off len 0 0 off len value target gas -> DUP10
	a.push(mTMP).op(opMLOAD).push(1).op(opEQ).jumpi("x_call_dg")
	a.op(opSTATICCALL).jump("x_call_done")
	a.label("x_call_dg")
	a.op(opDELEGATECALL)
	a.label("x_call_done")
	// top: ok off len value target gas
	a.op(opSWAP1, opPOP, opSWAP1, opPOP, opSWAP1, opPOP, opSWAP1, opPOP, opSWAP1, opPOP) // ok
	// strict && !ok -> revert
	a.op(opDUP1, opISZERO).push(mTMP + 32).op(opMLOAD)
	a.op(0x16) // AND
	a.jumpi("x_fail")
	a.op(opDUP1).emit() // ok
	// if ok and kind<8: append returndata
	a.op(opISZERO).jumpi("loop")
	a.op(opRETSIZE).push(0).push(mOUT).op(opMLOAD, opRETCOPY) // RETCOPY(dest=out, off=0, size)
	a.push(mOUT).op(opMLOAD, opRETSIZE, opADD).push(mOUT).op(opMSTORE)
	a.jump("loop")
	a.label("x_fail")
	a.push(0).push(0).op(opREVERT)

	// create: value len initcode
	begin("create")
	a.arg().arg()                                     // value len
	a.push(mPTR).op(opMLOAD, opDUP1, opDUP1+2, opADD) // value len off off+len
	a.push(mPTR).op(opMSTORE)                         // value len off
	a.op(opDUP1+1, opDUP1+1, opDUP1+4)                // value len off len off value
	a.op(opCREATE).emit()                             // pops value off len
	a.op(opPOP, opPOP, opPOP).jump("loop")
	// create2: value salt len initcode
	begin("create2")
	a.arg().arg().arg()                               // value salt len
	a.push(mPTR).op(opMLOAD, opDUP1, opDUP1+2, opADD) // value salt len off off+len
	a.push(mPTR).op(opMSTORE)                         // value salt len off
	// CREATE2 pops value offset size salt
	a.op(opDUP1 + 2) // + salt
	a.op(opDUP1 + 2) // + len
	a.op(opDUP1 + 2) // + off
	a.op(opDUP1 + 6) // + value : stack value salt len off salt len off -> DUP7
	a.op(opCREATE2).emit()
	a.op(opPOP, opPOP, opPOP, opPOP).jump("loop")

	begin("revertout")
	a.push(mBASE).op(opMLOAD, opDUP1).push(mOUT).op(opMLOAD, opSUB, opSWAP1, opREVERT)

	a.label("x_stop")
	a.op(opPOP)
	a.label("stop")
	atStop()
}

// puppetRuntime is the deployed code.
func puppetRuntime() []byte {
	a := newAsm()
	// calldatacopy(PROG, 0, size)
	a.op(opCALLDATASIZE).push(0).push(mPROG).op(opCALLDATACOPY)
	a.setup(func() { a.op(opCALLDATASIZE) })
	a.interp(func() {
		a.push(mBASE).op(opMLOAD, opDUP1).push(mOUT).op(opMLOAD, opSUB, opSWAP1, opRETURN)
	})
	return a.bytes()
}

// setup initialises the interpreter's registers; size pushes the script length.
func (a *asm) setup(size func()) {
	a.push(mPROG).push(mPTR).op(opMSTORE)
	size()
	a.push(mPROG).op(opADD, opDUP1).push(mEND).op(opMSTORE)
	a.push(64).op(opADD, opDUP1).push(mOUT).op(opMSTORE).push(mBASE).op(opMSTORE)
}

// puppetInit is init code which executes script in the constructor and then
// deploys the puppet runtime.
func puppetInit(script []byte) []byte {
	rt := puppetRuntime()
	a := newAsm()
	a.push(len(script)).pushLabel("script").push(mPROG).op(opCODECOPY)
	a.setup(func() { a.push(len(script)) })
	a.interp(func() {
		a.push(len(rt)).pushLabel("runtime").push(mPROG).op(opCODECOPY)
		a.push(len(rt)).push(mPROG).op(opRETURN)
	})
	a.mark("runtime")
	a.op(rt...)
	a.mark("script")
	a.op(script...)
	return a.bytes()
}

// ---------------------------------------------------------------- scripts

type script struct{ b []byte }

func w(v any) []byte {
	switch x := v.(type) {
	case int:
		return common.BigToHash(big.NewInt(int64(x))).Bytes()
	case uint64:
		return common.BigToHash(new(big.Int).SetUint64(x)).Bytes()
	case *big.Int:
		return common.BigToHash(x).Bytes()
	case common.Address:
		return common.LeftPadBytes(x.Bytes(), 32)
	case common.Hash:
		return x.Bytes()
	}
	panic("word")
}

func (s *script) raw(op byte, words ...any) *script {
	s.b = append(s.b, op)
	for _, x := range words {
		s.b = append(s.b, w(x)...)
	}
	return s
}
func (s *script) sstore(k, v int) *script { return s.raw(psSSTORE, k, v) }
func (s *script) tstore(k, v int) *script { return s.raw(psTSTORE, k, v) }
func (s *script) log(v int) *script       { return s.raw(psLOG, v) }

// logTopics: a log with 0, 1, 2 or 4 topics
func (s *script) logTopics(v int, topics []int) *script {
	if len(topics) == 1 && topics[0] == v {
		return s.log(v)
	}
	op := map[int]byte{0: psLOG0, 2: psLOG2, 4: psLOG4}[len(topics)]
	words := []any{v}
	for i := range topics {
		words = append(words, topics[len(topics)-1-i])
	}
	return s.raw(op, words...)
}
func (s *script) sload(k int) *script     { return s.raw(psSLOAD, k) }
func (s *script) tload(k int) *script     { return s.raw(psTLOAD, k) }
func (s *script) tcopy(k int) *script     { return s.raw(psTCOPY, k) }
func (s *script) revert() *script         { return s.raw(psREVERT) }
func (s *script) invalid() *script        { return s.raw(psINVALID) }
func (s *script) destruct(a common.Address) *script {
	return s.raw(psDESTRUCT, a)
}
func (s *script) balance(a common.Address) *script  { return s.raw(psBALANCE, a) }
func (s *script) codesize(a common.Address) *script { return s.raw(psCODESIZE, a) }

// kinds of call
const (
	kCall = iota
	kDelegate
	kStatic
)

func (s *script) call(kind int, strict bool, gas uint64, target common.Address, value int, payload []byte) *script {
	st := 0
	if strict {
		st = 1
	}
	if gas == 0 {
		gas = 1 << 62
	}
	s.raw(psCALL, kind, st, gas, target, value, len(payload))
	s.b = append(s.b, payload...)
	return s
}
func (s *script) create(value int, init []byte) *script {
	s.raw(psCREATE, value, len(init))
	s.b = append(s.b, init...)
	return s
}
func (s *script) create2(value, salt int, init []byte) *script {
	s.raw(psCREATE2, value, salt, len(init))
	s.b = append(s.b, init...)
	return s
}
