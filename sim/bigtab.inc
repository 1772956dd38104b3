{ "C01", "md_gost94", 536883257ULL, "e3bcf78886cb26bc9431987d16b7c25b0214ca0e6a95c5721a59b42e5e7da30e" },
{ "C01", "md_gost12_256", 536871689ULL, "03573ddf8981ff1a15d051ac19293f54dae0925ab869e7c0e07cb8b4f21af614" },
{ "C01", "md_gost12_512", 4294971617ULL, "fa42ab603a267ff9a7f471110787b4c3752950e0412969e2383e58639e5ef1ddd715827f17b6fc87030e947a9e282ad5bf134ea034d1f4a49cca51443c3284ca" },
{ "C03", "gost-mac", 536870925ULL, "5d07571d" },
{ "C03", "gost-mac-12", 536870920ULL, "6507c5a4" },
{ "C03", "magma-mac", 536870917ULL, "7db8e1d026a56234" },
{ "C03", "kuznyechik-ctr-acpkm-omac", 536870913ULL, "6c9717e9a3bbfbb65cdf80dd4887d147" },
{ "C04", "magma-mgm", 536870912ULL, "" },
{ "C04", "magma-mgm", 536870913ULL, "" },
{ "C04", "magma-mgm", 2147483548ULL, "" },
{ "C04", "magma-mgm", 536870911ULL, "1d11958f3a1eb7e2" },
