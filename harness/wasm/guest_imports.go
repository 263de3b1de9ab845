//go:build wasm && go1.24

package guest

//go:wasmimport wasmrs __init_buffers
func wasmInitBuffers(guestBufferPtr, hostBufferPtr uint32)

//go:wasmimport wasmrs __op_list
func wasmOpList(opPtr, opSize uint32)

//go:wasmimport wasmrs __send
func wasmSend(nextSendPos uint32)

func initBuffers(guestBufferPtr uintptr, hostBufferPtr uintptr) {
	wasmInitBuffers(uint32(guestBufferPtr), uint32(hostBufferPtr))
}

func opList(opPtr uintptr, opSize uint32) { wasmOpList(uint32(opPtr), opSize) }

func hostSend(nextSendPos uint32) { wasmSend(nextSendPos) }

//go:wasmexport __wasmrs_init
func wasmInit(a, b, c uint32) uint32 {
	Init(a, b, c)
	return 1
}

//go:wasmexport __wasmrs_op_list_request
func wasmOperationList() { OperationList() }

//go:wasmexport __wasmrs_send
func wasmGuestSend(n uint32) { GuestSend(n) }
