package natural

// github.com/maruel/natural: assumed to be a deterministic strict weak order
func nless(string, string) bool
axiom nless: forall a string, b string {nless(a, b)} :: nless(a, b) ==> !nless(b, a)
axiom nless: forall a string, b string, c string {nless(a, b), nless(b, c)} {nless(a, b), nless(a, c)} {nless(a, c), nless(b, c)} :: !nless(a, b) && !nless(b, c) ==> !nless(a, c)

extern Less(a, b) (r)
  option noalloc
  ensures r <==> nless(a, b)
