ID='c24-other-key-under-ecdsa'; PROP='C24'
NEEDS='A key of type ecdsa whose value is the PEM of an RSA key.'
BREAKS='A key declared as ecdsa is returned whatever kind of key its value holds, instead of being refused.'
EDITS=[('metadata/keys.go','''		ecdsaKey, ok := publicKey.(*ecdsa.PublicKey)
		if !ok {
			return nil, fmt.Errorf("invalid ecdsa public key")
		}
		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
		if _, err := x509.MarshalPKIXPublicKey(ecdsaKey); err != nil {
			return nil, err
		}
		return ecdsaKey, nil
''','''		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
		if _, err := x509.MarshalPKIXPublicKey(publicKey); err != nil {
			return nil, err
		}
		return publicKey, nil
'''),('metadata/keys.go','''	case KeyTypeECDSA_SHA2_P256, KeyTypeECDSA_SHA2_P256_COMPAT:''','''	case KeyTypeECDSA_SHA2_P256, KeyTypeECDSA_SHA2_P256_COMPAT: // *ecdsa.PublicKey;''')]
EDITS=EDITS[:1]
EDITS.append(('metadata/keys.go','''		rsaKey, ok := publicKey.(*rsa.PublicKey)
		if !ok {
			return nil, fmt.Errorf("invalid rsa public key")
		}
''','''		rsaKey, ok := publicKey.(*rsa.PublicKey)
		if !ok {
			return nil, fmt.Errorf("invalid rsa public key")
		}
'''))
EDITS=EDITS[:1]
DEMO='''
import ("testing"; "crypto/rsa"; "crypto/rand"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	p, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	k, err := metadata.KeyFromPublicKey(&p.PublicKey)
	must(err)
	k.Type, k.Scheme = metadata.KeyTypeECDSA_SHA2_P256, metadata.KeySchemeECDSA_SHA2_P256
	if _, err := k.ToPublicKey(); err == nil {
		t.Fatal("an RSA key passed as ecdsa")
	}
}
'''
