// Harness for AES sessions (C14), damaged ciphertext (C15), caller memory
// (C16) and the RSA channel with its codecs (C17).
package main

//go:debug cryptocustomrand=1
//go:debug rsa1024min=0

import (
	"gxsim/core"
)

func main() {
	core.Register("aes", genAES, runAES)
	core.Register("aes-damage", genDamage, runDamage)
	core.Register("padding", genPad, runPad)
	core.Register("memory", genMem, runMem)
	core.Register("rsa", genRSA, runRSA)
	core.Register("codec", genCodec, runCodec)
	core.Main()
}
