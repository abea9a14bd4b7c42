ID='c13-rsa-key-as-ecdsa'; PROP='C13'
NEEDS='A key that is declared as ecdsa whose value is the PEM of an RSA key.'
BREAKS='Using such a key panics instead of failing, which takes the client down while it verifies metadata.'
EDITS=[('metadata/keys.go','''		ecdsaKey, ok := publicKey.(*ecdsa.PublicKey)
		if !ok {
			return nil, fmt.Errorf("invalid ecdsa public key")
		}
''','''		ecdsaKey := publicKey.(*ecdsa.PublicKey)
''')]
DEMO='''
import ("testing"; "crypto/rsa"; "crypto/rand"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	p, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	k, err := metadata.KeyFromPublicKey(p.Public())
	must(err)
	_, err = k.ToPublicKey()
	must(err)
	k.Type = metadata.KeyTypeECDSA_SHA2_P256
	defer func() {
		if v := recover(); v != nil {
			t.Fatal("panic", v)
		}
	}()
	if _, err := k.ToPublicKey(); err == nil {
		t.Fatal("RSA key taken for an ECDSA key")
	}
}
'''
