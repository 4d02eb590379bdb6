/* 6809: instruction text and encoding */
static const char *const INSN[] = {
"ABX","3A",
"ADCA #%b","89b",
"ADCA,X","A984",
"ADCA,Y","A9A4",
"ADCA,U","A9C4",
"ADCA,S","A9E4",
"ADCA A,X","A986",
"ADCA A,Y","A9A6",
"ADCA A,U","A9C6",
"ADCA A,S","A9E6",
"ADCA B,X","A985",
"ADCA B,Y","A9A5",
"ADCA B,U","A9C5",
"ADCA B,S","A9E5",
"ADCA D,X","A98B",
"ADCA D,Y","A9AB",
"ADCA D,U","A9CB",
"ADCA D,S","A9EB",
"ADCA,X+","A980",
"ADCA,Y+","A9A0",
"ADCA,U+","A9C0",
"ADCA,S+","A9E0",
"ADCA,X++","A981",
"ADCA,Y++","A9A1",
"ADCA,U++","A9C1",
"ADCA,S++","A9E1",
"ADCA,-X","A982",
"ADCA,-Y","A9A2",
"ADCA,-U","A9C2",
"ADCA,-S","A9E2",
"ADCA,--X","A983",
"ADCA,--Y","A9A3",
"ADCA,--U","A9C3",
"ADCA,--S","A9E3",
"ADCA (,X)","A994",
"ADCA (,Y)","A9B4",
"ADCA (,U)","A9D4",
"ADCA (,S)","A9F4",
"ADCA (A,X)","A996",
"ADCA (A,Y)","A9B6",
"ADCA (A,U)","A9D6",
"ADCA (A,S)","A9F6",
"ADCA (B,X)","A995",
"ADCA (B,Y)","A9B5",
"ADCA (B,U)","A9D5",
"ADCA (B,S)","A9F5",
"ADCA (D,X)","A99B",
"ADCA (D,Y)","A9BB",
"ADCA (D,U)","A9DB",
"ADCA (D,S)","A9FB",
"ADCA (,X++)","A991",
"ADCA (,Y++)","A9B1",
"ADCA (,U++)","A9D1",
"ADCA (,S++)","A9F1",
"ADCA (,--X)","A993",
"ADCA (,--Y)","A9B3",
"ADCA (,--U)","A9D3",
"ADCA (,--S)","A9F3",
"ADCA (%g,X)","A998s",
"ADCA (%g,Y)","A9B8s",
"ADCA (%g,U)","A9D8s",
"ADCA (%g,S)","A9F8s",
"ADCA (%h,X)","A999H",
"ADCA (%h,Y)","A9B9H",
"ADCA (%h,U)","A9D9H",
"ADCA (%h,S)","A9F9H",
"ADCA (%g,PCR)","A99Cs",
"ADCA (%h,PCR)","A99DH",
"ADCA (%h)","A99FH",
"ADCA %f,X","A9f00",
"ADCA %f,Y","A9f20",
"ADCA %f,U","A9f40",
"ADCA %f,S","A9f60",
"ADCA %g,X","A988s",
"ADCA %g,Y","A9A8s",
"ADCA %g,U","A9C8s",
"ADCA %g,S","A9E8s",
"ADCA %h,X","A989H",
"ADCA %h,Y","A9A9H",
"ADCA %h,U","A9C9H",
"ADCA %h,S","A9E9H",
"ADCA %g,PCR","A98Cs",
"ADCA %h,PCR","A98DH",
"ADCA %b","99b",
"ADCA %h","B9H",
"ADCB #%b","C9b",
"ADCB,X","E984",
"ADCB,Y","E9A4",
"ADCB,U","E9C4",
"ADCB,S","E9E4",
"ADCB A,X","E986",
"ADCB A,Y","E9A6",
"ADCB A,U","E9C6",
"ADCB A,S","E9E6",
"ADCB B,X","E985",
"ADCB B,Y","E9A5",
"ADCB B,U","E9C5",
"ADCB B,S","E9E5",
"ADCB D,X","E98B",
"ADCB D,Y","E9AB",
"ADCB D,U","E9CB",
"ADCB D,S","E9EB",
"ADCB,X+","E980",
"ADCB,Y+","E9A0",
"ADCB,U+","E9C0",
"ADCB,S+","E9E0",
"ADCB,X++","E981",
"ADCB,Y++","E9A1",
"ADCB,U++","E9C1",
"ADCB,S++","E9E1",
"ADCB,-X","E982",
"ADCB,-Y","E9A2",
"ADCB,-U","E9C2",
"ADCB,-S","E9E2",
"ADCB,--X","E983",
"ADCB,--Y","E9A3",
"ADCB,--U","E9C3",
"ADCB,--S","E9E3",
"ADCB (,X)","E994",
"ADCB (,Y)","E9B4",
"ADCB (,U)","E9D4",
"ADCB (,S)","E9F4",
"ADCB (A,X)","E996",
"ADCB (A,Y)","E9B6",
"ADCB (A,U)","E9D6",
"ADCB (A,S)","E9F6",
"ADCB (B,X)","E995",
"ADCB (B,Y)","E9B5",
"ADCB (B,U)","E9D5",
"ADCB (B,S)","E9F5",
"ADCB (D,X)","E99B",
"ADCB (D,Y)","E9BB",
"ADCB (D,U)","E9DB",
"ADCB (D,S)","E9FB",
"ADCB (,X++)","E991",
"ADCB (,Y++)","E9B1",
"ADCB (,U++)","E9D1",
"ADCB (,S++)","E9F1",
"ADCB (,--X)","E993",
"ADCB (,--Y)","E9B3",
"ADCB (,--U)","E9D3",
"ADCB (,--S)","E9F3",
"ADCB (%g,X)","E998s",
"ADCB (%g,Y)","E9B8s",
"ADCB (%g,U)","E9D8s",
"ADCB (%g,S)","E9F8s",
"ADCB (%h,X)","E999H",
"ADCB (%h,Y)","E9B9H",
"ADCB (%h,U)","E9D9H",
"ADCB (%h,S)","E9F9H",
"ADCB (%g,PCR)","E99Cs",
"ADCB (%h,PCR)","E99DH",
"ADCB (%h)","E99FH",
"ADCB %f,X","E9f00",
"ADCB %f,Y","E9f20",
"ADCB %f,U","E9f40",
"ADCB %f,S","E9f60",
"ADCB %g,X","E988s",
"ADCB %g,Y","E9A8s",
"ADCB %g,U","E9C8s",
"ADCB %g,S","E9E8s",
"ADCB %h,X","E989H",
"ADCB %h,Y","E9A9H",
"ADCB %h,U","E9C9H",
"ADCB %h,S","E9E9H",
"ADCB %g,PCR","E98Cs",
"ADCB %h,PCR","E98DH",
"ADCB %b","D9b",
"ADCB %h","F9H",
"ADDA #%b","8Bb",
"ADDA,X","AB84",
"ADDA,Y","ABA4",
"ADDA,U","ABC4",
"ADDA,S","ABE4",
"ADDA A,X","AB86",
"ADDA A,Y","ABA6",
"ADDA A,U","ABC6",
"ADDA A,S","ABE6",
"ADDA B,X","AB85",
"ADDA B,Y","ABA5",
"ADDA B,U","ABC5",
"ADDA B,S","ABE5",
"ADDA D,X","AB8B",
"ADDA D,Y","ABAB",
"ADDA D,U","ABCB",
"ADDA D,S","ABEB",
"ADDA,X+","AB80",
"ADDA,Y+","ABA0",
"ADDA,U+","ABC0",
"ADDA,S+","ABE0",
"ADDA,X++","AB81",
"ADDA,Y++","ABA1",
"ADDA,U++","ABC1",
"ADDA,S++","ABE1",
"ADDA,-X","AB82",
"ADDA,-Y","ABA2",
"ADDA,-U","ABC2",
"ADDA,-S","ABE2",
"ADDA,--X","AB83",
"ADDA,--Y","ABA3",
"ADDA,--U","ABC3",
"ADDA,--S","ABE3",
"ADDA (,X)","AB94",
"ADDA (,Y)","ABB4",
"ADDA (,U)","ABD4",
"ADDA (,S)","ABF4",
"ADDA (A,X)","AB96",
"ADDA (A,Y)","ABB6",
"ADDA (A,U)","ABD6",
"ADDA (A,S)","ABF6",
"ADDA (B,X)","AB95",
"ADDA (B,Y)","ABB5",
"ADDA (B,U)","ABD5",
"ADDA (B,S)","ABF5",
"ADDA (D,X)","AB9B",
"ADDA (D,Y)","ABBB",
"ADDA (D,U)","ABDB",
"ADDA (D,S)","ABFB",
"ADDA (,X++)","AB91",
"ADDA (,Y++)","ABB1",
"ADDA (,U++)","ABD1",
"ADDA (,S++)","ABF1",
"ADDA (,--X)","AB93",
"ADDA (,--Y)","ABB3",
"ADDA (,--U)","ABD3",
"ADDA (,--S)","ABF3",
"ADDA (%g,X)","AB98s",
"ADDA (%g,Y)","ABB8s",
"ADDA (%g,U)","ABD8s",
"ADDA (%g,S)","ABF8s",
"ADDA (%h,X)","AB99H",
"ADDA (%h,Y)","ABB9H",
"ADDA (%h,U)","ABD9H",
"ADDA (%h,S)","ABF9H",
"ADDA (%g,PCR)","AB9Cs",
"ADDA (%h,PCR)","AB9DH",
"ADDA (%h)","AB9FH",
"ADDA %f,X","ABf00",
"ADDA %f,Y","ABf20",
"ADDA %f,U","ABf40",
"ADDA %f,S","ABf60",
"ADDA %g,X","AB88s",
"ADDA %g,Y","ABA8s",
"ADDA %g,U","ABC8s",
"ADDA %g,S","ABE8s",
"ADDA %h,X","AB89H",
"ADDA %h,Y","ABA9H",
"ADDA %h,U","ABC9H",
"ADDA %h,S","ABE9H",
"ADDA %g,PCR","AB8Cs",
"ADDA %h,PCR","AB8DH",
"ADDA %b","9Bb",
"ADDA %h","BBH",
"ADDB #%b","CBb",
"ADDB,X","EB84",
"ADDB,Y","EBA4",
"ADDB,U","EBC4",
"ADDB,S","EBE4",
"ADDB A,X","EB86",
"ADDB A,Y","EBA6",
"ADDB A,U","EBC6",
"ADDB A,S","EBE6",
"ADDB B,X","EB85",
"ADDB B,Y","EBA5",
"ADDB B,U","EBC5",
"ADDB B,S","EBE5",
"ADDB D,X","EB8B",
"ADDB D,Y","EBAB",
"ADDB D,U","EBCB",
"ADDB D,S","EBEB",
"ADDB,X+","EB80",
"ADDB,Y+","EBA0",
"ADDB,U+","EBC0",
"ADDB,S+","EBE0",
"ADDB,X++","EB81",
"ADDB,Y++","EBA1",
"ADDB,U++","EBC1",
"ADDB,S++","EBE1",
"ADDB,-X","EB82",
"ADDB,-Y","EBA2",
"ADDB,-U","EBC2",
"ADDB,-S","EBE2",
"ADDB,--X","EB83",
"ADDB,--Y","EBA3",
"ADDB,--U","EBC3",
"ADDB,--S","EBE3",
"ADDB (,X)","EB94",
"ADDB (,Y)","EBB4",
"ADDB (,U)","EBD4",
"ADDB (,S)","EBF4",
"ADDB (A,X)","EB96",
"ADDB (A,Y)","EBB6",
"ADDB (A,U)","EBD6",
"ADDB (A,S)","EBF6",
"ADDB (B,X)","EB95",
"ADDB (B,Y)","EBB5",
"ADDB (B,U)","EBD5",
"ADDB (B,S)","EBF5",
"ADDB (D,X)","EB9B",
"ADDB (D,Y)","EBBB",
"ADDB (D,U)","EBDB",
"ADDB (D,S)","EBFB",
"ADDB (,X++)","EB91",
"ADDB (,Y++)","EBB1",
"ADDB (,U++)","EBD1",
"ADDB (,S++)","EBF1",
"ADDB (,--X)","EB93",
"ADDB (,--Y)","EBB3",
"ADDB (,--U)","EBD3",
"ADDB (,--S)","EBF3",
"ADDB (%g,X)","EB98s",
"ADDB (%g,Y)","EBB8s",
"ADDB (%g,U)","EBD8s",
"ADDB (%g,S)","EBF8s",
"ADDB (%h,X)","EB99H",
"ADDB (%h,Y)","EBB9H",
"ADDB (%h,U)","EBD9H",
"ADDB (%h,S)","EBF9H",
"ADDB (%g,PCR)","EB9Cs",
"ADDB (%h,PCR)","EB9DH",
"ADDB (%h)","EB9FH",
"ADDB %f,X","EBf00",
"ADDB %f,Y","EBf20",
"ADDB %f,U","EBf40",
"ADDB %f,S","EBf60",
"ADDB %g,X","EB88s",
"ADDB %g,Y","EBA8s",
"ADDB %g,U","EBC8s",
"ADDB %g,S","EBE8s",
"ADDB %h,X","EB89H",
"ADDB %h,Y","EBA9H",
"ADDB %h,U","EBC9H",
"ADDB %h,S","EBE9H",
"ADDB %g,PCR","EB8Cs",
"ADDB %h,PCR","EB8DH",
"ADDB %b","DBb",
"ADDB %h","FBH",
"ADDD #%w","C3W",
"ADDD,X","E384",
"ADDD,Y","E3A4",
"ADDD,U","E3C4",
"ADDD,S","E3E4",
"ADDD A,X","E386",
"ADDD A,Y","E3A6",
"ADDD A,U","E3C6",
"ADDD A,S","E3E6",
"ADDD B,X","E385",
"ADDD B,Y","E3A5",
"ADDD B,U","E3C5",
"ADDD B,S","E3E5",
"ADDD D,X","E38B",
"ADDD D,Y","E3AB",
"ADDD D,U","E3CB",
"ADDD D,S","E3EB",
"ADDD,X+","E380",
"ADDD,Y+","E3A0",
"ADDD,U+","E3C0",
"ADDD,S+","E3E0",
"ADDD,X++","E381",
"ADDD,Y++","E3A1",
"ADDD,U++","E3C1",
"ADDD,S++","E3E1",
"ADDD,-X","E382",
"ADDD,-Y","E3A2",
"ADDD,-U","E3C2",
"ADDD,-S","E3E2",
"ADDD,--X","E383",
"ADDD,--Y","E3A3",
"ADDD,--U","E3C3",
"ADDD,--S","E3E3",
"ADDD (,X)","E394",
"ADDD (,Y)","E3B4",
"ADDD (,U)","E3D4",
"ADDD (,S)","E3F4",
"ADDD (A,X)","E396",
"ADDD (A,Y)","E3B6",
"ADDD (A,U)","E3D6",
"ADDD (A,S)","E3F6",
"ADDD (B,X)","E395",
"ADDD (B,Y)","E3B5",
"ADDD (B,U)","E3D5",
"ADDD (B,S)","E3F5",
"ADDD (D,X)","E39B",
"ADDD (D,Y)","E3BB",
"ADDD (D,U)","E3DB",
"ADDD (D,S)","E3FB",
"ADDD (,X++)","E391",
"ADDD (,Y++)","E3B1",
"ADDD (,U++)","E3D1",
"ADDD (,S++)","E3F1",
"ADDD (,--X)","E393",
"ADDD (,--Y)","E3B3",
"ADDD (,--U)","E3D3",
"ADDD (,--S)","E3F3",
"ADDD (%g,X)","E398s",
"ADDD (%g,Y)","E3B8s",
"ADDD (%g,U)","E3D8s",
"ADDD (%g,S)","E3F8s",
"ADDD (%h,X)","E399H",
"ADDD (%h,Y)","E3B9H",
"ADDD (%h,U)","E3D9H",
"ADDD (%h,S)","E3F9H",
"ADDD (%g,PCR)","E39Cs",
"ADDD (%h,PCR)","E39DH",
"ADDD (%h)","E39FH",
"ADDD %f,X","E3f00",
"ADDD %f,Y","E3f20",
"ADDD %f,U","E3f40",
"ADDD %f,S","E3f60",
"ADDD %g,X","E388s",
"ADDD %g,Y","E3A8s",
"ADDD %g,U","E3C8s",
"ADDD %g,S","E3E8s",
"ADDD %h,X","E389H",
"ADDD %h,Y","E3A9H",
"ADDD %h,U","E3C9H",
"ADDD %h,S","E3E9H",
"ADDD %g,PCR","E38Cs",
"ADDD %h,PCR","E38DH",
"ADDD %b","D3b",
"ADDD %h","F3H",
"ANDA #%b","84b",
"ANDA,X","A484",
"ANDA,Y","A4A4",
"ANDA,U","A4C4",
"ANDA,S","A4E4",
"ANDA A,X","A486",
"ANDA A,Y","A4A6",
"ANDA A,U","A4C6",
"ANDA A,S","A4E6",
"ANDA B,X","A485",
"ANDA B,Y","A4A5",
"ANDA B,U","A4C5",
"ANDA B,S","A4E5",
"ANDA D,X","A48B",
"ANDA D,Y","A4AB",
"ANDA D,U","A4CB",
"ANDA D,S","A4EB",
"ANDA,X+","A480",
"ANDA,Y+","A4A0",
"ANDA,U+","A4C0",
"ANDA,S+","A4E0",
"ANDA,X++","A481",
"ANDA,Y++","A4A1",
"ANDA,U++","A4C1",
"ANDA,S++","A4E1",
"ANDA,-X","A482",
"ANDA,-Y","A4A2",
"ANDA,-U","A4C2",
"ANDA,-S","A4E2",
"ANDA,--X","A483",
"ANDA,--Y","A4A3",
"ANDA,--U","A4C3",
"ANDA,--S","A4E3",
"ANDA (,X)","A494",
"ANDA (,Y)","A4B4",
"ANDA (,U)","A4D4",
"ANDA (,S)","A4F4",
"ANDA (A,X)","A496",
"ANDA (A,Y)","A4B6",
"ANDA (A,U)","A4D6",
"ANDA (A,S)","A4F6",
"ANDA (B,X)","A495",
"ANDA (B,Y)","A4B5",
"ANDA (B,U)","A4D5",
"ANDA (B,S)","A4F5",
"ANDA (D,X)","A49B",
"ANDA (D,Y)","A4BB",
"ANDA (D,U)","A4DB",
"ANDA (D,S)","A4FB",
"ANDA (,X++)","A491",
"ANDA (,Y++)","A4B1",
"ANDA (,U++)","A4D1",
"ANDA (,S++)","A4F1",
"ANDA (,--X)","A493",
"ANDA (,--Y)","A4B3",
"ANDA (,--U)","A4D3",
"ANDA (,--S)","A4F3",
"ANDA (%g,X)","A498s",
"ANDA (%g,Y)","A4B8s",
"ANDA (%g,U)","A4D8s",
"ANDA (%g,S)","A4F8s",
"ANDA (%h,X)","A499H",
"ANDA (%h,Y)","A4B9H",
"ANDA (%h,U)","A4D9H",
"ANDA (%h,S)","A4F9H",
"ANDA (%g,PCR)","A49Cs",
"ANDA (%h,PCR)","A49DH",
"ANDA (%h)","A49FH",
"ANDA %f,X","A4f00",
"ANDA %f,Y","A4f20",
"ANDA %f,U","A4f40",
"ANDA %f,S","A4f60",
"ANDA %g,X","A488s",
"ANDA %g,Y","A4A8s",
"ANDA %g,U","A4C8s",
"ANDA %g,S","A4E8s",
"ANDA %h,X","A489H",
"ANDA %h,Y","A4A9H",
"ANDA %h,U","A4C9H",
"ANDA %h,S","A4E9H",
"ANDA %g,PCR","A48Cs",
"ANDA %h,PCR","A48DH",
"ANDA %b","94b",
"ANDA %h","B4H",
"ANDB #%b","C4b",
"ANDB,X","E484",
"ANDB,Y","E4A4",
"ANDB,U","E4C4",
"ANDB,S","E4E4",
"ANDB A,X","E486",
"ANDB A,Y","E4A6",
"ANDB A,U","E4C6",
"ANDB A,S","E4E6",
"ANDB B,X","E485",
"ANDB B,Y","E4A5",
"ANDB B,U","E4C5",
"ANDB B,S","E4E5",
"ANDB D,X","E48B",
"ANDB D,Y","E4AB",
"ANDB D,U","E4CB",
"ANDB D,S","E4EB",
"ANDB,X+","E480",
"ANDB,Y+","E4A0",
"ANDB,U+","E4C0",
"ANDB,S+","E4E0",
"ANDB,X++","E481",
"ANDB,Y++","E4A1",
"ANDB,U++","E4C1",
"ANDB,S++","E4E1",
"ANDB,-X","E482",
"ANDB,-Y","E4A2",
"ANDB,-U","E4C2",
"ANDB,-S","E4E2",
"ANDB,--X","E483",
"ANDB,--Y","E4A3",
"ANDB,--U","E4C3",
"ANDB,--S","E4E3",
"ANDB (,X)","E494",
"ANDB (,Y)","E4B4",
"ANDB (,U)","E4D4",
"ANDB (,S)","E4F4",
"ANDB (A,X)","E496",
"ANDB (A,Y)","E4B6",
"ANDB (A,U)","E4D6",
"ANDB (A,S)","E4F6",
"ANDB (B,X)","E495",
"ANDB (B,Y)","E4B5",
"ANDB (B,U)","E4D5",
"ANDB (B,S)","E4F5",
"ANDB (D,X)","E49B",
"ANDB (D,Y)","E4BB",
"ANDB (D,U)","E4DB",
"ANDB (D,S)","E4FB",
"ANDB (,X++)","E491",
"ANDB (,Y++)","E4B1",
"ANDB (,U++)","E4D1",
"ANDB (,S++)","E4F1",
"ANDB (,--X)","E493",
"ANDB (,--Y)","E4B3",
"ANDB (,--U)","E4D3",
"ANDB (,--S)","E4F3",
"ANDB (%g,X)","E498s",
"ANDB (%g,Y)","E4B8s",
"ANDB (%g,U)","E4D8s",
"ANDB (%g,S)","E4F8s",
"ANDB (%h,X)","E499H",
"ANDB (%h,Y)","E4B9H",
"ANDB (%h,U)","E4D9H",
"ANDB (%h,S)","E4F9H",
"ANDB (%g,PCR)","E49Cs",
"ANDB (%h,PCR)","E49DH",
"ANDB (%h)","E49FH",
"ANDB %f,X","E4f00",
"ANDB %f,Y","E4f20",
"ANDB %f,U","E4f40",
"ANDB %f,S","E4f60",
"ANDB %g,X","E488s",
"ANDB %g,Y","E4A8s",
"ANDB %g,U","E4C8s",
"ANDB %g,S","E4E8s",
"ANDB %h,X","E489H",
"ANDB %h,Y","E4A9H",
"ANDB %h,U","E4C9H",
"ANDB %h,S","E4E9H",
"ANDB %g,PCR","E48Cs",
"ANDB %h,PCR","E48DH",
"ANDB %b","D4b",
"ANDB %h","F4H",
"ANDCC #%b","1Cb",
"ASLA","48",
"ASLB","58",
"ASL,X","6884",
"ASL,Y","68A4",
"ASL,U","68C4",
"ASL,S","68E4",
"ASL A,X","6886",
"ASL A,Y","68A6",
"ASL A,U","68C6",
"ASL A,S","68E6",
"ASL B,X","6885",
"ASL B,Y","68A5",
"ASL B,U","68C5",
"ASL B,S","68E5",
"ASL D,X","688B",
"ASL D,Y","68AB",
"ASL D,U","68CB",
"ASL D,S","68EB",
"ASL,X+","6880",
"ASL,Y+","68A0",
"ASL,U+","68C0",
"ASL,S+","68E0",
"ASL,X++","6881",
"ASL,Y++","68A1",
"ASL,U++","68C1",
"ASL,S++","68E1",
"ASL,-X","6882",
"ASL,-Y","68A2",
"ASL,-U","68C2",
"ASL,-S","68E2",
"ASL,--X","6883",
"ASL,--Y","68A3",
"ASL,--U","68C3",
"ASL,--S","68E3",
"ASL (,X)","6894",
"ASL (,Y)","68B4",
"ASL (,U)","68D4",
"ASL (,S)","68F4",
"ASL (A,X)","6896",
"ASL (A,Y)","68B6",
"ASL (A,U)","68D6",
"ASL (A,S)","68F6",
"ASL (B,X)","6895",
"ASL (B,Y)","68B5",
"ASL (B,U)","68D5",
"ASL (B,S)","68F5",
"ASL (D,X)","689B",
"ASL (D,Y)","68BB",
"ASL (D,U)","68DB",
"ASL (D,S)","68FB",
"ASL (,X++)","6891",
"ASL (,Y++)","68B1",
"ASL (,U++)","68D1",
"ASL (,S++)","68F1",
"ASL (,--X)","6893",
"ASL (,--Y)","68B3",
"ASL (,--U)","68D3",
"ASL (,--S)","68F3",
"ASL (%g,X)","6898s",
"ASL (%g,Y)","68B8s",
"ASL (%g,U)","68D8s",
"ASL (%g,S)","68F8s",
"ASL (%h,X)","6899H",
"ASL (%h,Y)","68B9H",
"ASL (%h,U)","68D9H",
"ASL (%h,S)","68F9H",
"ASL (%g,PCR)","689Cs",
"ASL (%h,PCR)","689DH",
"ASL (%h)","689FH",
"ASL %f,X","68f00",
"ASL %f,Y","68f20",
"ASL %f,U","68f40",
"ASL %f,S","68f60",
"ASL %g,X","6888s",
"ASL %g,Y","68A8s",
"ASL %g,U","68C8s",
"ASL %g,S","68E8s",
"ASL %h,X","6889H",
"ASL %h,Y","68A9H",
"ASL %h,U","68C9H",
"ASL %h,S","68E9H",
"ASL %g,PCR","688Cs",
"ASL %h,PCR","688DH",
"ASL %b","08b",
"ASL %h","78H",
"ASRA","47",
"ASRB","57",
"ASR,X","6784",
"ASR,Y","67A4",
"ASR,U","67C4",
"ASR,S","67E4",
"ASR A,X","6786",
"ASR A,Y","67A6",
"ASR A,U","67C6",
"ASR A,S","67E6",
"ASR B,X","6785",
"ASR B,Y","67A5",
"ASR B,U","67C5",
"ASR B,S","67E5",
"ASR D,X","678B",
"ASR D,Y","67AB",
"ASR D,U","67CB",
"ASR D,S","67EB",
"ASR,X+","6780",
"ASR,Y+","67A0",
"ASR,U+","67C0",
"ASR,S+","67E0",
"ASR,X++","6781",
"ASR,Y++","67A1",
"ASR,U++","67C1",
"ASR,S++","67E1",
"ASR,-X","6782",
"ASR,-Y","67A2",
"ASR,-U","67C2",
"ASR,-S","67E2",
"ASR,--X","6783",
"ASR,--Y","67A3",
"ASR,--U","67C3",
"ASR,--S","67E3",
"ASR (,X)","6794",
"ASR (,Y)","67B4",
"ASR (,U)","67D4",
"ASR (,S)","67F4",
"ASR (A,X)","6796",
"ASR (A,Y)","67B6",
"ASR (A,U)","67D6",
"ASR (A,S)","67F6",
"ASR (B,X)","6795",
"ASR (B,Y)","67B5",
"ASR (B,U)","67D5",
"ASR (B,S)","67F5",
"ASR (D,X)","679B",
"ASR (D,Y)","67BB",
"ASR (D,U)","67DB",
"ASR (D,S)","67FB",
"ASR (,X++)","6791",
"ASR (,Y++)","67B1",
"ASR (,U++)","67D1",
"ASR (,S++)","67F1",
"ASR (,--X)","6793",
"ASR (,--Y)","67B3",
"ASR (,--U)","67D3",
"ASR (,--S)","67F3",
"ASR (%g,X)","6798s",
"ASR (%g,Y)","67B8s",
"ASR (%g,U)","67D8s",
"ASR (%g,S)","67F8s",
"ASR (%h,X)","6799H",
"ASR (%h,Y)","67B9H",
"ASR (%h,U)","67D9H",
"ASR (%h,S)","67F9H",
"ASR (%g,PCR)","679Cs",
"ASR (%h,PCR)","679DH",
"ASR (%h)","679FH",
"ASR %f,X","67f00",
"ASR %f,Y","67f20",
"ASR %f,U","67f40",
"ASR %f,S","67f60",
"ASR %g,X","6788s",
"ASR %g,Y","67A8s",
"ASR %g,U","67C8s",
"ASR %g,S","67E8s",
"ASR %h,X","6789H",
"ASR %h,Y","67A9H",
"ASR %h,U","67C9H",
"ASR %h,S","67E9H",
"ASR %g,PCR","678Cs",
"ASR %h,PCR","678DH",
"ASR %b","07b",
"ASR %h","77H",
"BITA #%b","85b",
"BITA,X","A584",
"BITA,Y","A5A4",
"BITA,U","A5C4",
"BITA,S","A5E4",
"BITA A,X","A586",
"BITA A,Y","A5A6",
"BITA A,U","A5C6",
"BITA A,S","A5E6",
"BITA B,X","A585",
"BITA B,Y","A5A5",
"BITA B,U","A5C5",
"BITA B,S","A5E5",
"BITA D,X","A58B",
"BITA D,Y","A5AB",
"BITA D,U","A5CB",
"BITA D,S","A5EB",
"BITA,X+","A580",
"BITA,Y+","A5A0",
"BITA,U+","A5C0",
"BITA,S+","A5E0",
"BITA,X++","A581",
"BITA,Y++","A5A1",
"BITA,U++","A5C1",
"BITA,S++","A5E1",
"BITA,-X","A582",
"BITA,-Y","A5A2",
"BITA,-U","A5C2",
"BITA,-S","A5E2",
"BITA,--X","A583",
"BITA,--Y","A5A3",
"BITA,--U","A5C3",
"BITA,--S","A5E3",
"BITA (,X)","A594",
"BITA (,Y)","A5B4",
"BITA (,U)","A5D4",
"BITA (,S)","A5F4",
"BITA (A,X)","A596",
"BITA (A,Y)","A5B6",
"BITA (A,U)","A5D6",
"BITA (A,S)","A5F6",
"BITA (B,X)","A595",
"BITA (B,Y)","A5B5",
"BITA (B,U)","A5D5",
"BITA (B,S)","A5F5",
"BITA (D,X)","A59B",
"BITA (D,Y)","A5BB",
"BITA (D,U)","A5DB",
"BITA (D,S)","A5FB",
"BITA (,X++)","A591",
"BITA (,Y++)","A5B1",
"BITA (,U++)","A5D1",
"BITA (,S++)","A5F1",
"BITA (,--X)","A593",
"BITA (,--Y)","A5B3",
"BITA (,--U)","A5D3",
"BITA (,--S)","A5F3",
"BITA (%g,X)","A598s",
"BITA (%g,Y)","A5B8s",
"BITA (%g,U)","A5D8s",
"BITA (%g,S)","A5F8s",
"BITA (%h,X)","A599H",
"BITA (%h,Y)","A5B9H",
"BITA (%h,U)","A5D9H",
"BITA (%h,S)","A5F9H",
"BITA (%g,PCR)","A59Cs",
"BITA (%h,PCR)","A59DH",
"BITA (%h)","A59FH",
"BITA %f,X","A5f00",
"BITA %f,Y","A5f20",
"BITA %f,U","A5f40",
"BITA %f,S","A5f60",
"BITA %g,X","A588s",
"BITA %g,Y","A5A8s",
"BITA %g,U","A5C8s",
"BITA %g,S","A5E8s",
"BITA %h,X","A589H",
"BITA %h,Y","A5A9H",
"BITA %h,U","A5C9H",
"BITA %h,S","A5E9H",
"BITA %g,PCR","A58Cs",
"BITA %h,PCR","A58DH",
"BITA %b","95b",
"BITA %h","B5H",
"BITB #%b","C5b",
"BITB,X","E584",
"BITB,Y","E5A4",
"BITB,U","E5C4",
"BITB,S","E5E4",
"BITB A,X","E586",
"BITB A,Y","E5A6",
"BITB A,U","E5C6",
"BITB A,S","E5E6",
"BITB B,X","E585",
"BITB B,Y","E5A5",
"BITB B,U","E5C5",
"BITB B,S","E5E5",
"BITB D,X","E58B",
"BITB D,Y","E5AB",
"BITB D,U","E5CB",
"BITB D,S","E5EB",
"BITB,X+","E580",
"BITB,Y+","E5A0",
"BITB,U+","E5C0",
"BITB,S+","E5E0",
"BITB,X++","E581",
"BITB,Y++","E5A1",
"BITB,U++","E5C1",
"BITB,S++","E5E1",
"BITB,-X","E582",
"BITB,-Y","E5A2",
"BITB,-U","E5C2",
"BITB,-S","E5E2",
"BITB,--X","E583",
"BITB,--Y","E5A3",
"BITB,--U","E5C3",
"BITB,--S","E5E3",
"BITB (,X)","E594",
"BITB (,Y)","E5B4",
"BITB (,U)","E5D4",
"BITB (,S)","E5F4",
"BITB (A,X)","E596",
"BITB (A,Y)","E5B6",
"BITB (A,U)","E5D6",
"BITB (A,S)","E5F6",
"BITB (B,X)","E595",
"BITB (B,Y)","E5B5",
"BITB (B,U)","E5D5",
"BITB (B,S)","E5F5",
"BITB (D,X)","E59B",
"BITB (D,Y)","E5BB",
"BITB (D,U)","E5DB",
"BITB (D,S)","E5FB",
"BITB (,X++)","E591",
"BITB (,Y++)","E5B1",
"BITB (,U++)","E5D1",
"BITB (,S++)","E5F1",
"BITB (,--X)","E593",
"BITB (,--Y)","E5B3",
"BITB (,--U)","E5D3",
"BITB (,--S)","E5F3",
"BITB (%g,X)","E598s",
"BITB (%g,Y)","E5B8s",
"BITB (%g,U)","E5D8s",
"BITB (%g,S)","E5F8s",
"BITB (%h,X)","E599H",
"BITB (%h,Y)","E5B9H",
"BITB (%h,U)","E5D9H",
"BITB (%h,S)","E5F9H",
"BITB (%g,PCR)","E59Cs",
"BITB (%h,PCR)","E59DH",
"BITB (%h)","E59FH",
"BITB %f,X","E5f00",
"BITB %f,Y","E5f20",
"BITB %f,U","E5f40",
"BITB %f,S","E5f60",
"BITB %g,X","E588s",
"BITB %g,Y","E5A8s",
"BITB %g,U","E5C8s",
"BITB %g,S","E5E8s",
"BITB %h,X","E589H",
"BITB %h,Y","E5A9H",
"BITB %h,U","E5C9H",
"BITB %h,S","E5E9H",
"BITB %g,PCR","E58Cs",
"BITB %h,PCR","E58DH",
"BITB %b","D5b",
"BITB %h","F5H",
"CLRA","4F",
"CLRB","5F",
"CLR,X","6F84",
"CLR,Y","6FA4",
"CLR,U","6FC4",
"CLR,S","6FE4",
"CLR A,X","6F86",
"CLR A,Y","6FA6",
"CLR A,U","6FC6",
"CLR A,S","6FE6",
"CLR B,X","6F85",
"CLR B,Y","6FA5",
"CLR B,U","6FC5",
"CLR B,S","6FE5",
"CLR D,X","6F8B",
"CLR D,Y","6FAB",
"CLR D,U","6FCB",
"CLR D,S","6FEB",
"CLR,X+","6F80",
"CLR,Y+","6FA0",
"CLR,U+","6FC0",
"CLR,S+","6FE0",
"CLR,X++","6F81",
"CLR,Y++","6FA1",
"CLR,U++","6FC1",
"CLR,S++","6FE1",
"CLR,-X","6F82",
"CLR,-Y","6FA2",
"CLR,-U","6FC2",
"CLR,-S","6FE2",
"CLR,--X","6F83",
"CLR,--Y","6FA3",
"CLR,--U","6FC3",
"CLR,--S","6FE3",
"CLR (,X)","6F94",
"CLR (,Y)","6FB4",
"CLR (,U)","6FD4",
"CLR (,S)","6FF4",
"CLR (A,X)","6F96",
"CLR (A,Y)","6FB6",
"CLR (A,U)","6FD6",
"CLR (A,S)","6FF6",
"CLR (B,X)","6F95",
"CLR (B,Y)","6FB5",
"CLR (B,U)","6FD5",
"CLR (B,S)","6FF5",
"CLR (D,X)","6F9B",
"CLR (D,Y)","6FBB",
"CLR (D,U)","6FDB",
"CLR (D,S)","6FFB",
"CLR (,X++)","6F91",
"CLR (,Y++)","6FB1",
"CLR (,U++)","6FD1",
"CLR (,S++)","6FF1",
"CLR (,--X)","6F93",
"CLR (,--Y)","6FB3",
"CLR (,--U)","6FD3",
"CLR (,--S)","6FF3",
"CLR (%g,X)","6F98s",
"CLR (%g,Y)","6FB8s",
"CLR (%g,U)","6FD8s",
"CLR (%g,S)","6FF8s",
"CLR (%h,X)","6F99H",
"CLR (%h,Y)","6FB9H",
"CLR (%h,U)","6FD9H",
"CLR (%h,S)","6FF9H",
"CLR (%g,PCR)","6F9Cs",
"CLR (%h,PCR)","6F9DH",
"CLR (%h)","6F9FH",
"CLR %f,X","6Ff00",
"CLR %f,Y","6Ff20",
"CLR %f,U","6Ff40",
"CLR %f,S","6Ff60",
"CLR %g,X","6F88s",
"CLR %g,Y","6FA8s",
"CLR %g,U","6FC8s",
"CLR %g,S","6FE8s",
"CLR %h,X","6F89H",
"CLR %h,Y","6FA9H",
"CLR %h,U","6FC9H",
"CLR %h,S","6FE9H",
"CLR %g,PCR","6F8Cs",
"CLR %h,PCR","6F8DH",
"CLR %b","0Fb",
"CLR %h","7FH",
"CMPA #%b","81b",
"CMPA,X","A184",
"CMPA,Y","A1A4",
"CMPA,U","A1C4",
"CMPA,S","A1E4",
"CMPA A,X","A186",
"CMPA A,Y","A1A6",
"CMPA A,U","A1C6",
"CMPA A,S","A1E6",
"CMPA B,X","A185",
"CMPA B,Y","A1A5",
"CMPA B,U","A1C5",
"CMPA B,S","A1E5",
"CMPA D,X","A18B",
"CMPA D,Y","A1AB",
"CMPA D,U","A1CB",
"CMPA D,S","A1EB",
"CMPA,X+","A180",
"CMPA,Y+","A1A0",
"CMPA,U+","A1C0",
"CMPA,S+","A1E0",
"CMPA,X++","A181",
"CMPA,Y++","A1A1",
"CMPA,U++","A1C1",
"CMPA,S++","A1E1",
"CMPA,-X","A182",
"CMPA,-Y","A1A2",
"CMPA,-U","A1C2",
"CMPA,-S","A1E2",
"CMPA,--X","A183",
"CMPA,--Y","A1A3",
"CMPA,--U","A1C3",
"CMPA,--S","A1E3",
"CMPA (,X)","A194",
"CMPA (,Y)","A1B4",
"CMPA (,U)","A1D4",
"CMPA (,S)","A1F4",
"CMPA (A,X)","A196",
"CMPA (A,Y)","A1B6",
"CMPA (A,U)","A1D6",
"CMPA (A,S)","A1F6",
"CMPA (B,X)","A195",
"CMPA (B,Y)","A1B5",
"CMPA (B,U)","A1D5",
"CMPA (B,S)","A1F5",
"CMPA (D,X)","A19B",
"CMPA (D,Y)","A1BB",
"CMPA (D,U)","A1DB",
"CMPA (D,S)","A1FB",
"CMPA (,X++)","A191",
"CMPA (,Y++)","A1B1",
"CMPA (,U++)","A1D1",
"CMPA (,S++)","A1F1",
"CMPA (,--X)","A193",
"CMPA (,--Y)","A1B3",
"CMPA (,--U)","A1D3",
"CMPA (,--S)","A1F3",
"CMPA (%g,X)","A198s",
"CMPA (%g,Y)","A1B8s",
"CMPA (%g,U)","A1D8s",
"CMPA (%g,S)","A1F8s",
"CMPA (%h,X)","A199H",
"CMPA (%h,Y)","A1B9H",
"CMPA (%h,U)","A1D9H",
"CMPA (%h,S)","A1F9H",
"CMPA (%g,PCR)","A19Cs",
"CMPA (%h,PCR)","A19DH",
"CMPA (%h)","A19FH",
"CMPA %f,X","A1f00",
"CMPA %f,Y","A1f20",
"CMPA %f,U","A1f40",
"CMPA %f,S","A1f60",
"CMPA %g,X","A188s",
"CMPA %g,Y","A1A8s",
"CMPA %g,U","A1C8s",
"CMPA %g,S","A1E8s",
"CMPA %h,X","A189H",
"CMPA %h,Y","A1A9H",
"CMPA %h,U","A1C9H",
"CMPA %h,S","A1E9H",
"CMPA %g,PCR","A18Cs",
"CMPA %h,PCR","A18DH",
"CMPA %b","91b",
"CMPA %h","B1H",
"CMPB #%b","C1b",
"CMPB,X","E184",
"CMPB,Y","E1A4",
"CMPB,U","E1C4",
"CMPB,S","E1E4",
"CMPB A,X","E186",
"CMPB A,Y","E1A6",
"CMPB A,U","E1C6",
"CMPB A,S","E1E6",
"CMPB B,X","E185",
"CMPB B,Y","E1A5",
"CMPB B,U","E1C5",
"CMPB B,S","E1E5",
"CMPB D,X","E18B",
"CMPB D,Y","E1AB",
"CMPB D,U","E1CB",
"CMPB D,S","E1EB",
"CMPB,X+","E180",
"CMPB,Y+","E1A0",
"CMPB,U+","E1C0",
"CMPB,S+","E1E0",
"CMPB,X++","E181",
"CMPB,Y++","E1A1",
"CMPB,U++","E1C1",
"CMPB,S++","E1E1",
"CMPB,-X","E182",
"CMPB,-Y","E1A2",
"CMPB,-U","E1C2",
"CMPB,-S","E1E2",
"CMPB,--X","E183",
"CMPB,--Y","E1A3",
"CMPB,--U","E1C3",
"CMPB,--S","E1E3",
"CMPB (,X)","E194",
"CMPB (,Y)","E1B4",
"CMPB (,U)","E1D4",
"CMPB (,S)","E1F4",
"CMPB (A,X)","E196",
"CMPB (A,Y)","E1B6",
"CMPB (A,U)","E1D6",
"CMPB (A,S)","E1F6",
"CMPB (B,X)","E195",
"CMPB (B,Y)","E1B5",
"CMPB (B,U)","E1D5",
"CMPB (B,S)","E1F5",
"CMPB (D,X)","E19B",
"CMPB (D,Y)","E1BB",
"CMPB (D,U)","E1DB",
"CMPB (D,S)","E1FB",
"CMPB (,X++)","E191",
"CMPB (,Y++)","E1B1",
"CMPB (,U++)","E1D1",
"CMPB (,S++)","E1F1",
"CMPB (,--X)","E193",
"CMPB (,--Y)","E1B3",
"CMPB (,--U)","E1D3",
"CMPB (,--S)","E1F3",
"CMPB (%g,X)","E198s",
"CMPB (%g,Y)","E1B8s",
"CMPB (%g,U)","E1D8s",
"CMPB (%g,S)","E1F8s",
"CMPB (%h,X)","E199H",
"CMPB (%h,Y)","E1B9H",
"CMPB (%h,U)","E1D9H",
"CMPB (%h,S)","E1F9H",
"CMPB (%g,PCR)","E19Cs",
"CMPB (%h,PCR)","E19DH",
"CMPB (%h)","E19FH",
"CMPB %f,X","E1f00",
"CMPB %f,Y","E1f20",
"CMPB %f,U","E1f40",
"CMPB %f,S","E1f60",
"CMPB %g,X","E188s",
"CMPB %g,Y","E1A8s",
"CMPB %g,U","E1C8s",
"CMPB %g,S","E1E8s",
"CMPB %h,X","E189H",
"CMPB %h,Y","E1A9H",
"CMPB %h,U","E1C9H",
"CMPB %h,S","E1E9H",
"CMPB %g,PCR","E18Cs",
"CMPB %h,PCR","E18DH",
"CMPB %b","D1b",
"CMPB %h","F1H",
"CMPX #%w","8CW",
"CMPX,X","AC84",
"CMPX,Y","ACA4",
"CMPX,U","ACC4",
"CMPX,S","ACE4",
"CMPX A,X","AC86",
"CMPX A,Y","ACA6",
"CMPX A,U","ACC6",
"CMPX A,S","ACE6",
"CMPX B,X","AC85",
"CMPX B,Y","ACA5",
"CMPX B,U","ACC5",
"CMPX B,S","ACE5",
"CMPX D,X","AC8B",
"CMPX D,Y","ACAB",
"CMPX D,U","ACCB",
"CMPX D,S","ACEB",
"CMPX,X+","AC80",
"CMPX,Y+","ACA0",
"CMPX,U+","ACC0",
"CMPX,S+","ACE0",
"CMPX,X++","AC81",
"CMPX,Y++","ACA1",
"CMPX,U++","ACC1",
"CMPX,S++","ACE1",
"CMPX,-X","AC82",
"CMPX,-Y","ACA2",
"CMPX,-U","ACC2",
"CMPX,-S","ACE2",
"CMPX,--X","AC83",
"CMPX,--Y","ACA3",
"CMPX,--U","ACC3",
"CMPX,--S","ACE3",
"CMPX (,X)","AC94",
"CMPX (,Y)","ACB4",
"CMPX (,U)","ACD4",
"CMPX (,S)","ACF4",
"CMPX (A,X)","AC96",
"CMPX (A,Y)","ACB6",
"CMPX (A,U)","ACD6",
"CMPX (A,S)","ACF6",
"CMPX (B,X)","AC95",
"CMPX (B,Y)","ACB5",
"CMPX (B,U)","ACD5",
"CMPX (B,S)","ACF5",
"CMPX (D,X)","AC9B",
"CMPX (D,Y)","ACBB",
"CMPX (D,U)","ACDB",
"CMPX (D,S)","ACFB",
"CMPX (,X++)","AC91",
"CMPX (,Y++)","ACB1",
"CMPX (,U++)","ACD1",
"CMPX (,S++)","ACF1",
"CMPX (,--X)","AC93",
"CMPX (,--Y)","ACB3",
"CMPX (,--U)","ACD3",
"CMPX (,--S)","ACF3",
"CMPX (%g,X)","AC98s",
"CMPX (%g,Y)","ACB8s",
"CMPX (%g,U)","ACD8s",
"CMPX (%g,S)","ACF8s",
"CMPX (%h,X)","AC99H",
"CMPX (%h,Y)","ACB9H",
"CMPX (%h,U)","ACD9H",
"CMPX (%h,S)","ACF9H",
"CMPX (%g,PCR)","AC9Cs",
"CMPX (%h,PCR)","AC9DH",
"CMPX (%h)","AC9FH",
"CMPX %f,X","ACf00",
"CMPX %f,Y","ACf20",
"CMPX %f,U","ACf40",
"CMPX %f,S","ACf60",
"CMPX %g,X","AC88s",
"CMPX %g,Y","ACA8s",
"CMPX %g,U","ACC8s",
"CMPX %g,S","ACE8s",
"CMPX %h,X","AC89H",
"CMPX %h,Y","ACA9H",
"CMPX %h,U","ACC9H",
"CMPX %h,S","ACE9H",
"CMPX %g,PCR","AC8Cs",
"CMPX %h,PCR","AC8DH",
"CMPX %b","9Cb",
"CMPX %h","BCH",
"CMPD #%w","1083W",
"CMPD,X","10A384",
"CMPD,Y","10A3A4",
"CMPD,U","10A3C4",
"CMPD,S","10A3E4",
"CMPD A,X","10A386",
"CMPD A,Y","10A3A6",
"CMPD A,U","10A3C6",
"CMPD A,S","10A3E6",
"CMPD B,X","10A385",
"CMPD B,Y","10A3A5",
"CMPD B,U","10A3C5",
"CMPD B,S","10A3E5",
"CMPD D,X","10A38B",
"CMPD D,Y","10A3AB",
"CMPD D,U","10A3CB",
"CMPD D,S","10A3EB",
"CMPD,X+","10A380",
"CMPD,Y+","10A3A0",
"CMPD,U+","10A3C0",
"CMPD,S+","10A3E0",
"CMPD,X++","10A381",
"CMPD,Y++","10A3A1",
"CMPD,U++","10A3C1",
"CMPD,S++","10A3E1",
"CMPD,-X","10A382",
"CMPD,-Y","10A3A2",
"CMPD,-U","10A3C2",
"CMPD,-S","10A3E2",
"CMPD,--X","10A383",
"CMPD,--Y","10A3A3",
"CMPD,--U","10A3C3",
"CMPD,--S","10A3E3",
"CMPD (,X)","10A394",
"CMPD (,Y)","10A3B4",
"CMPD (,U)","10A3D4",
"CMPD (,S)","10A3F4",
"CMPD (A,X)","10A396",
"CMPD (A,Y)","10A3B6",
"CMPD (A,U)","10A3D6",
"CMPD (A,S)","10A3F6",
"CMPD (B,X)","10A395",
"CMPD (B,Y)","10A3B5",
"CMPD (B,U)","10A3D5",
"CMPD (B,S)","10A3F5",
"CMPD (D,X)","10A39B",
"CMPD (D,Y)","10A3BB",
"CMPD (D,U)","10A3DB",
"CMPD (D,S)","10A3FB",
"CMPD (,X++)","10A391",
"CMPD (,Y++)","10A3B1",
"CMPD (,U++)","10A3D1",
"CMPD (,S++)","10A3F1",
"CMPD (,--X)","10A393",
"CMPD (,--Y)","10A3B3",
"CMPD (,--U)","10A3D3",
"CMPD (,--S)","10A3F3",
"CMPD (%g,X)","10A398s",
"CMPD (%g,Y)","10A3B8s",
"CMPD (%g,U)","10A3D8s",
"CMPD (%g,S)","10A3F8s",
"CMPD (%h,X)","10A399H",
"CMPD (%h,Y)","10A3B9H",
"CMPD (%h,U)","10A3D9H",
"CMPD (%h,S)","10A3F9H",
"CMPD (%g,PCR)","10A39Cs",
"CMPD (%h,PCR)","10A39DH",
"CMPD (%h)","10A39FH",
"CMPD %f,X","10A3f00",
"CMPD %f,Y","10A3f20",
"CMPD %f,U","10A3f40",
"CMPD %f,S","10A3f60",
"CMPD %g,X","10A388s",
"CMPD %g,Y","10A3A8s",
"CMPD %g,U","10A3C8s",
"CMPD %g,S","10A3E8s",
"CMPD %h,X","10A389H",
"CMPD %h,Y","10A3A9H",
"CMPD %h,U","10A3C9H",
"CMPD %h,S","10A3E9H",
"CMPD %g,PCR","10A38Cs",
"CMPD %h,PCR","10A38DH",
"CMPD %b","1093b",
"CMPD %h","10B3H",
"CMPS #%w","118CW",
"CMPS,X","11AC84",
"CMPS,Y","11ACA4",
"CMPS,U","11ACC4",
"CMPS,S","11ACE4",
"CMPS A,X","11AC86",
"CMPS A,Y","11ACA6",
"CMPS A,U","11ACC6",
"CMPS A,S","11ACE6",
"CMPS B,X","11AC85",
"CMPS B,Y","11ACA5",
"CMPS B,U","11ACC5",
"CMPS B,S","11ACE5",
"CMPS D,X","11AC8B",
"CMPS D,Y","11ACAB",
"CMPS D,U","11ACCB",
"CMPS D,S","11ACEB",
"CMPS,X+","11AC80",
"CMPS,Y+","11ACA0",
"CMPS,U+","11ACC0",
"CMPS,S+","11ACE0",
"CMPS,X++","11AC81",
"CMPS,Y++","11ACA1",
"CMPS,U++","11ACC1",
"CMPS,S++","11ACE1",
"CMPS,-X","11AC82",
"CMPS,-Y","11ACA2",
"CMPS,-U","11ACC2",
"CMPS,-S","11ACE2",
"CMPS,--X","11AC83",
"CMPS,--Y","11ACA3",
"CMPS,--U","11ACC3",
"CMPS,--S","11ACE3",
"CMPS (,X)","11AC94",
"CMPS (,Y)","11ACB4",
"CMPS (,U)","11ACD4",
"CMPS (,S)","11ACF4",
"CMPS (A,X)","11AC96",
"CMPS (A,Y)","11ACB6",
"CMPS (A,U)","11ACD6",
"CMPS (A,S)","11ACF6",
"CMPS (B,X)","11AC95",
"CMPS (B,Y)","11ACB5",
"CMPS (B,U)","11ACD5",
"CMPS (B,S)","11ACF5",
"CMPS (D,X)","11AC9B",
"CMPS (D,Y)","11ACBB",
"CMPS (D,U)","11ACDB",
"CMPS (D,S)","11ACFB",
"CMPS (,X++)","11AC91",
"CMPS (,Y++)","11ACB1",
"CMPS (,U++)","11ACD1",
"CMPS (,S++)","11ACF1",
"CMPS (,--X)","11AC93",
"CMPS (,--Y)","11ACB3",
"CMPS (,--U)","11ACD3",
"CMPS (,--S)","11ACF3",
"CMPS (%g,X)","11AC98s",
"CMPS (%g,Y)","11ACB8s",
"CMPS (%g,U)","11ACD8s",
"CMPS (%g,S)","11ACF8s",
"CMPS (%h,X)","11AC99H",
"CMPS (%h,Y)","11ACB9H",
"CMPS (%h,U)","11ACD9H",
"CMPS (%h,S)","11ACF9H",
"CMPS (%g,PCR)","11AC9Cs",
"CMPS (%h,PCR)","11AC9DH",
"CMPS (%h)","11AC9FH",
"CMPS %f,X","11ACf00",
"CMPS %f,Y","11ACf20",
"CMPS %f,U","11ACf40",
"CMPS %f,S","11ACf60",
"CMPS %g,X","11AC88s",
"CMPS %g,Y","11ACA8s",
"CMPS %g,U","11ACC8s",
"CMPS %g,S","11ACE8s",
"CMPS %h,X","11AC89H",
"CMPS %h,Y","11ACA9H",
"CMPS %h,U","11ACC9H",
"CMPS %h,S","11ACE9H",
"CMPS %g,PCR","11AC8Cs",
"CMPS %h,PCR","11AC8DH",
"CMPS %b","119Cb",
"CMPS %h","11BCH",
"CMPU #%w","1183W",
"CMPU,X","11A384",
"CMPU,Y","11A3A4",
"CMPU,U","11A3C4",
"CMPU,S","11A3E4",
"CMPU A,X","11A386",
"CMPU A,Y","11A3A6",
"CMPU A,U","11A3C6",
"CMPU A,S","11A3E6",
"CMPU B,X","11A385",
"CMPU B,Y","11A3A5",
"CMPU B,U","11A3C5",
"CMPU B,S","11A3E5",
"CMPU D,X","11A38B",
"CMPU D,Y","11A3AB",
"CMPU D,U","11A3CB",
"CMPU D,S","11A3EB",
"CMPU,X+","11A380",
"CMPU,Y+","11A3A0",
"CMPU,U+","11A3C0",
"CMPU,S+","11A3E0",
"CMPU,X++","11A381",
"CMPU,Y++","11A3A1",
"CMPU,U++","11A3C1",
"CMPU,S++","11A3E1",
"CMPU,-X","11A382",
"CMPU,-Y","11A3A2",
"CMPU,-U","11A3C2",
"CMPU,-S","11A3E2",
"CMPU,--X","11A383",
"CMPU,--Y","11A3A3",
"CMPU,--U","11A3C3",
"CMPU,--S","11A3E3",
"CMPU (,X)","11A394",
"CMPU (,Y)","11A3B4",
"CMPU (,U)","11A3D4",
"CMPU (,S)","11A3F4",
"CMPU (A,X)","11A396",
"CMPU (A,Y)","11A3B6",
"CMPU (A,U)","11A3D6",
"CMPU (A,S)","11A3F6",
"CMPU (B,X)","11A395",
"CMPU (B,Y)","11A3B5",
"CMPU (B,U)","11A3D5",
"CMPU (B,S)","11A3F5",
"CMPU (D,X)","11A39B",
"CMPU (D,Y)","11A3BB",
"CMPU (D,U)","11A3DB",
"CMPU (D,S)","11A3FB",
"CMPU (,X++)","11A391",
"CMPU (,Y++)","11A3B1",
"CMPU (,U++)","11A3D1",
"CMPU (,S++)","11A3F1",
"CMPU (,--X)","11A393",
"CMPU (,--Y)","11A3B3",
"CMPU (,--U)","11A3D3",
"CMPU (,--S)","11A3F3",
"CMPU (%g,X)","11A398s",
"CMPU (%g,Y)","11A3B8s",
"CMPU (%g,U)","11A3D8s",
"CMPU (%g,S)","11A3F8s",
"CMPU (%h,X)","11A399H",
"CMPU (%h,Y)","11A3B9H",
"CMPU (%h,U)","11A3D9H",
"CMPU (%h,S)","11A3F9H",
"CMPU (%g,PCR)","11A39Cs",
"CMPU (%h,PCR)","11A39DH",
"CMPU (%h)","11A39FH",
"CMPU %f,X","11A3f00",
"CMPU %f,Y","11A3f20",
"CMPU %f,U","11A3f40",
"CMPU %f,S","11A3f60",
"CMPU %g,X","11A388s",
"CMPU %g,Y","11A3A8s",
"CMPU %g,U","11A3C8s",
"CMPU %g,S","11A3E8s",
"CMPU %h,X","11A389H",
"CMPU %h,Y","11A3A9H",
"CMPU %h,U","11A3C9H",
"CMPU %h,S","11A3E9H",
"CMPU %g,PCR","11A38Cs",
"CMPU %h,PCR","11A38DH",
"CMPU %b","1193b",
"CMPU %h","11B3H",
"CMPY #%w","108CW",
"CMPY,X","10AC84",
"CMPY,Y","10ACA4",
"CMPY,U","10ACC4",
"CMPY,S","10ACE4",
"CMPY A,X","10AC86",
"CMPY A,Y","10ACA6",
"CMPY A,U","10ACC6",
"CMPY A,S","10ACE6",
"CMPY B,X","10AC85",
"CMPY B,Y","10ACA5",
"CMPY B,U","10ACC5",
"CMPY B,S","10ACE5",
"CMPY D,X","10AC8B",
"CMPY D,Y","10ACAB",
"CMPY D,U","10ACCB",
"CMPY D,S","10ACEB",
"CMPY,X+","10AC80",
"CMPY,Y+","10ACA0",
"CMPY,U+","10ACC0",
"CMPY,S+","10ACE0",
"CMPY,X++","10AC81",
"CMPY,Y++","10ACA1",
"CMPY,U++","10ACC1",
"CMPY,S++","10ACE1",
"CMPY,-X","10AC82",
"CMPY,-Y","10ACA2",
"CMPY,-U","10ACC2",
"CMPY,-S","10ACE2",
"CMPY,--X","10AC83",
"CMPY,--Y","10ACA3",
"CMPY,--U","10ACC3",
"CMPY,--S","10ACE3",
"CMPY (,X)","10AC94",
"CMPY (,Y)","10ACB4",
"CMPY (,U)","10ACD4",
"CMPY (,S)","10ACF4",
"CMPY (A,X)","10AC96",
"CMPY (A,Y)","10ACB6",
"CMPY (A,U)","10ACD6",
"CMPY (A,S)","10ACF6",
"CMPY (B,X)","10AC95",
"CMPY (B,Y)","10ACB5",
"CMPY (B,U)","10ACD5",
"CMPY (B,S)","10ACF5",
"CMPY (D,X)","10AC9B",
"CMPY (D,Y)","10ACBB",
"CMPY (D,U)","10ACDB",
"CMPY (D,S)","10ACFB",
"CMPY (,X++)","10AC91",
"CMPY (,Y++)","10ACB1",
"CMPY (,U++)","10ACD1",
"CMPY (,S++)","10ACF1",
"CMPY (,--X)","10AC93",
"CMPY (,--Y)","10ACB3",
"CMPY (,--U)","10ACD3",
"CMPY (,--S)","10ACF3",
"CMPY (%g,X)","10AC98s",
"CMPY (%g,Y)","10ACB8s",
"CMPY (%g,U)","10ACD8s",
"CMPY (%g,S)","10ACF8s",
"CMPY (%h,X)","10AC99H",
"CMPY (%h,Y)","10ACB9H",
"CMPY (%h,U)","10ACD9H",
"CMPY (%h,S)","10ACF9H",
"CMPY (%g,PCR)","10AC9Cs",
"CMPY (%h,PCR)","10AC9DH",
"CMPY (%h)","10AC9FH",
"CMPY %f,X","10ACf00",
"CMPY %f,Y","10ACf20",
"CMPY %f,U","10ACf40",
"CMPY %f,S","10ACf60",
"CMPY %g,X","10AC88s",
"CMPY %g,Y","10ACA8s",
"CMPY %g,U","10ACC8s",
"CMPY %g,S","10ACE8s",
"CMPY %h,X","10AC89H",
"CMPY %h,Y","10ACA9H",
"CMPY %h,U","10ACC9H",
"CMPY %h,S","10ACE9H",
"CMPY %g,PCR","10AC8Cs",
"CMPY %h,PCR","10AC8DH",
"CMPY %b","109Cb",
"CMPY %h","10BCH",
"COMA","43",
"COMB","53",
"COM,X","6384",
"COM,Y","63A4",
"COM,U","63C4",
"COM,S","63E4",
"COM A,X","6386",
"COM A,Y","63A6",
"COM A,U","63C6",
"COM A,S","63E6",
"COM B,X","6385",
"COM B,Y","63A5",
"COM B,U","63C5",
"COM B,S","63E5",
"COM D,X","638B",
"COM D,Y","63AB",
"COM D,U","63CB",
"COM D,S","63EB",
"COM,X+","6380",
"COM,Y+","63A0",
"COM,U+","63C0",
"COM,S+","63E0",
"COM,X++","6381",
"COM,Y++","63A1",
"COM,U++","63C1",
"COM,S++","63E1",
"COM,-X","6382",
"COM,-Y","63A2",
"COM,-U","63C2",
"COM,-S","63E2",
"COM,--X","6383",
"COM,--Y","63A3",
"COM,--U","63C3",
"COM,--S","63E3",
"COM (,X)","6394",
"COM (,Y)","63B4",
"COM (,U)","63D4",
"COM (,S)","63F4",
"COM (A,X)","6396",
"COM (A,Y)","63B6",
"COM (A,U)","63D6",
"COM (A,S)","63F6",
"COM (B,X)","6395",
"COM (B,Y)","63B5",
"COM (B,U)","63D5",
"COM (B,S)","63F5",
"COM (D,X)","639B",
"COM (D,Y)","63BB",
"COM (D,U)","63DB",
"COM (D,S)","63FB",
"COM (,X++)","6391",
"COM (,Y++)","63B1",
"COM (,U++)","63D1",
"COM (,S++)","63F1",
"COM (,--X)","6393",
"COM (,--Y)","63B3",
"COM (,--U)","63D3",
"COM (,--S)","63F3",
"COM (%g,X)","6398s",
"COM (%g,Y)","63B8s",
"COM (%g,U)","63D8s",
"COM (%g,S)","63F8s",
"COM (%h,X)","6399H",
"COM (%h,Y)","63B9H",
"COM (%h,U)","63D9H",
"COM (%h,S)","63F9H",
"COM (%g,PCR)","639Cs",
"COM (%h,PCR)","639DH",
"COM (%h)","639FH",
"COM %f,X","63f00",
"COM %f,Y","63f20",
"COM %f,U","63f40",
"COM %f,S","63f60",
"COM %g,X","6388s",
"COM %g,Y","63A8s",
"COM %g,U","63C8s",
"COM %g,S","63E8s",
"COM %h,X","6389H",
"COM %h,Y","63A9H",
"COM %h,U","63C9H",
"COM %h,S","63E9H",
"COM %g,PCR","638Cs",
"COM %h,PCR","638DH",
"COM %b","03b",
"COM %h","73H",
"CWAI #%b","3Cb",
"DAA","19",
"DECA","4A",
"DECB","5A",
"DEC,X","6A84",
"DEC,Y","6AA4",
"DEC,U","6AC4",
"DEC,S","6AE4",
"DEC A,X","6A86",
"DEC A,Y","6AA6",
"DEC A,U","6AC6",
"DEC A,S","6AE6",
"DEC B,X","6A85",
"DEC B,Y","6AA5",
"DEC B,U","6AC5",
"DEC B,S","6AE5",
"DEC D,X","6A8B",
"DEC D,Y","6AAB",
"DEC D,U","6ACB",
"DEC D,S","6AEB",
"DEC,X+","6A80",
"DEC,Y+","6AA0",
"DEC,U+","6AC0",
"DEC,S+","6AE0",
"DEC,X++","6A81",
"DEC,Y++","6AA1",
"DEC,U++","6AC1",
"DEC,S++","6AE1",
"DEC,-X","6A82",
"DEC,-Y","6AA2",
"DEC,-U","6AC2",
"DEC,-S","6AE2",
"DEC,--X","6A83",
"DEC,--Y","6AA3",
"DEC,--U","6AC3",
"DEC,--S","6AE3",
"DEC (,X)","6A94",
"DEC (,Y)","6AB4",
"DEC (,U)","6AD4",
"DEC (,S)","6AF4",
"DEC (A,X)","6A96",
"DEC (A,Y)","6AB6",
"DEC (A,U)","6AD6",
"DEC (A,S)","6AF6",
"DEC (B,X)","6A95",
"DEC (B,Y)","6AB5",
"DEC (B,U)","6AD5",
"DEC (B,S)","6AF5",
"DEC (D,X)","6A9B",
"DEC (D,Y)","6ABB",
"DEC (D,U)","6ADB",
"DEC (D,S)","6AFB",
"DEC (,X++)","6A91",
"DEC (,Y++)","6AB1",
"DEC (,U++)","6AD1",
"DEC (,S++)","6AF1",
"DEC (,--X)","6A93",
"DEC (,--Y)","6AB3",
"DEC (,--U)","6AD3",
"DEC (,--S)","6AF3",
"DEC (%g,X)","6A98s",
"DEC (%g,Y)","6AB8s",
"DEC (%g,U)","6AD8s",
"DEC (%g,S)","6AF8s",
"DEC (%h,X)","6A99H",
"DEC (%h,Y)","6AB9H",
"DEC (%h,U)","6AD9H",
"DEC (%h,S)","6AF9H",
"DEC (%g,PCR)","6A9Cs",
"DEC (%h,PCR)","6A9DH",
"DEC (%h)","6A9FH",
"DEC %f,X","6Af00",
"DEC %f,Y","6Af20",
"DEC %f,U","6Af40",
"DEC %f,S","6Af60",
"DEC %g,X","6A88s",
"DEC %g,Y","6AA8s",
"DEC %g,U","6AC8s",
"DEC %g,S","6AE8s",
"DEC %h,X","6A89H",
"DEC %h,Y","6AA9H",
"DEC %h,U","6AC9H",
"DEC %h,S","6AE9H",
"DEC %g,PCR","6A8Cs",
"DEC %h,PCR","6A8DH",
"DEC %b","0Ab",
"DEC %h","7AH",
"EORA #%b","88b",
"EORA,X","A884",
"EORA,Y","A8A4",
"EORA,U","A8C4",
"EORA,S","A8E4",
"EORA A,X","A886",
"EORA A,Y","A8A6",
"EORA A,U","A8C6",
"EORA A,S","A8E6",
"EORA B,X","A885",
"EORA B,Y","A8A5",
"EORA B,U","A8C5",
"EORA B,S","A8E5",
"EORA D,X","A88B",
"EORA D,Y","A8AB",
"EORA D,U","A8CB",
"EORA D,S","A8EB",
"EORA,X+","A880",
"EORA,Y+","A8A0",
"EORA,U+","A8C0",
"EORA,S+","A8E0",
"EORA,X++","A881",
"EORA,Y++","A8A1",
"EORA,U++","A8C1",
"EORA,S++","A8E1",
"EORA,-X","A882",
"EORA,-Y","A8A2",
"EORA,-U","A8C2",
"EORA,-S","A8E2",
"EORA,--X","A883",
"EORA,--Y","A8A3",
"EORA,--U","A8C3",
"EORA,--S","A8E3",
"EORA (,X)","A894",
"EORA (,Y)","A8B4",
"EORA (,U)","A8D4",
"EORA (,S)","A8F4",
"EORA (A,X)","A896",
"EORA (A,Y)","A8B6",
"EORA (A,U)","A8D6",
"EORA (A,S)","A8F6",
"EORA (B,X)","A895",
"EORA (B,Y)","A8B5",
"EORA (B,U)","A8D5",
"EORA (B,S)","A8F5",
"EORA (D,X)","A89B",
"EORA (D,Y)","A8BB",
"EORA (D,U)","A8DB",
"EORA (D,S)","A8FB",
"EORA (,X++)","A891",
"EORA (,Y++)","A8B1",
"EORA (,U++)","A8D1",
"EORA (,S++)","A8F1",
"EORA (,--X)","A893",
"EORA (,--Y)","A8B3",
"EORA (,--U)","A8D3",
"EORA (,--S)","A8F3",
"EORA (%g,X)","A898s",
"EORA (%g,Y)","A8B8s",
"EORA (%g,U)","A8D8s",
"EORA (%g,S)","A8F8s",
"EORA (%h,X)","A899H",
"EORA (%h,Y)","A8B9H",
"EORA (%h,U)","A8D9H",
"EORA (%h,S)","A8F9H",
"EORA (%g,PCR)","A89Cs",
"EORA (%h,PCR)","A89DH",
"EORA (%h)","A89FH",
"EORA %f,X","A8f00",
"EORA %f,Y","A8f20",
"EORA %f,U","A8f40",
"EORA %f,S","A8f60",
"EORA %g,X","A888s",
"EORA %g,Y","A8A8s",
"EORA %g,U","A8C8s",
"EORA %g,S","A8E8s",
"EORA %h,X","A889H",
"EORA %h,Y","A8A9H",
"EORA %h,U","A8C9H",
"EORA %h,S","A8E9H",
"EORA %g,PCR","A88Cs",
"EORA %h,PCR","A88DH",
"EORA %b","98b",
"EORA %h","B8H",
"EORB #%b","C8b",
"EORB,X","E884",
"EORB,Y","E8A4",
"EORB,U","E8C4",
"EORB,S","E8E4",
"EORB A,X","E886",
"EORB A,Y","E8A6",
"EORB A,U","E8C6",
"EORB A,S","E8E6",
"EORB B,X","E885",
"EORB B,Y","E8A5",
"EORB B,U","E8C5",
"EORB B,S","E8E5",
"EORB D,X","E88B",
"EORB D,Y","E8AB",
"EORB D,U","E8CB",
"EORB D,S","E8EB",
"EORB,X+","E880",
"EORB,Y+","E8A0",
"EORB,U+","E8C0",
"EORB,S+","E8E0",
"EORB,X++","E881",
"EORB,Y++","E8A1",
"EORB,U++","E8C1",
"EORB,S++","E8E1",
"EORB,-X","E882",
"EORB,-Y","E8A2",
"EORB,-U","E8C2",
"EORB,-S","E8E2",
"EORB,--X","E883",
"EORB,--Y","E8A3",
"EORB,--U","E8C3",
"EORB,--S","E8E3",
"EORB (,X)","E894",
"EORB (,Y)","E8B4",
"EORB (,U)","E8D4",
"EORB (,S)","E8F4",
"EORB (A,X)","E896",
"EORB (A,Y)","E8B6",
"EORB (A,U)","E8D6",
"EORB (A,S)","E8F6",
"EORB (B,X)","E895",
"EORB (B,Y)","E8B5",
"EORB (B,U)","E8D5",
"EORB (B,S)","E8F5",
"EORB (D,X)","E89B",
"EORB (D,Y)","E8BB",
"EORB (D,U)","E8DB",
"EORB (D,S)","E8FB",
"EORB (,X++)","E891",
"EORB (,Y++)","E8B1",
"EORB (,U++)","E8D1",
"EORB (,S++)","E8F1",
"EORB (,--X)","E893",
"EORB (,--Y)","E8B3",
"EORB (,--U)","E8D3",
"EORB (,--S)","E8F3",
"EORB (%g,X)","E898s",
"EORB (%g,Y)","E8B8s",
"EORB (%g,U)","E8D8s",
"EORB (%g,S)","E8F8s",
"EORB (%h,X)","E899H",
"EORB (%h,Y)","E8B9H",
"EORB (%h,U)","E8D9H",
"EORB (%h,S)","E8F9H",
"EORB (%g,PCR)","E89Cs",
"EORB (%h,PCR)","E89DH",
"EORB (%h)","E89FH",
"EORB %f,X","E8f00",
"EORB %f,Y","E8f20",
"EORB %f,U","E8f40",
"EORB %f,S","E8f60",
"EORB %g,X","E888s",
"EORB %g,Y","E8A8s",
"EORB %g,U","E8C8s",
"EORB %g,S","E8E8s",
"EORB %h,X","E889H",
"EORB %h,Y","E8A9H",
"EORB %h,U","E8C9H",
"EORB %h,S","E8E9H",
"EORB %g,PCR","E88Cs",
"EORB %h,PCR","E88DH",
"EORB %b","D8b",
"EORB %h","F8H",
"INCA","4C",
"INCB","5C",
"INC,X","6C84",
"INC,Y","6CA4",
"INC,U","6CC4",
"INC,S","6CE4",
"INC A,X","6C86",
"INC A,Y","6CA6",
"INC A,U","6CC6",
"INC A,S","6CE6",
"INC B,X","6C85",
"INC B,Y","6CA5",
"INC B,U","6CC5",
"INC B,S","6CE5",
"INC D,X","6C8B",
"INC D,Y","6CAB",
"INC D,U","6CCB",
"INC D,S","6CEB",
"INC,X+","6C80",
"INC,Y+","6CA0",
"INC,U+","6CC0",
"INC,S+","6CE0",
"INC,X++","6C81",
"INC,Y++","6CA1",
"INC,U++","6CC1",
"INC,S++","6CE1",
"INC,-X","6C82",
"INC,-Y","6CA2",
"INC,-U","6CC2",
"INC,-S","6CE2",
"INC,--X","6C83",
"INC,--Y","6CA3",
"INC,--U","6CC3",
"INC,--S","6CE3",
"INC (,X)","6C94",
"INC (,Y)","6CB4",
"INC (,U)","6CD4",
"INC (,S)","6CF4",
"INC (A,X)","6C96",
"INC (A,Y)","6CB6",
"INC (A,U)","6CD6",
"INC (A,S)","6CF6",
"INC (B,X)","6C95",
"INC (B,Y)","6CB5",
"INC (B,U)","6CD5",
"INC (B,S)","6CF5",
"INC (D,X)","6C9B",
"INC (D,Y)","6CBB",
"INC (D,U)","6CDB",
"INC (D,S)","6CFB",
"INC (,X++)","6C91",
"INC (,Y++)","6CB1",
"INC (,U++)","6CD1",
"INC (,S++)","6CF1",
"INC (,--X)","6C93",
"INC (,--Y)","6CB3",
"INC (,--U)","6CD3",
"INC (,--S)","6CF3",
"INC (%g,X)","6C98s",
"INC (%g,Y)","6CB8s",
"INC (%g,U)","6CD8s",
"INC (%g,S)","6CF8s",
"INC (%h,X)","6C99H",
"INC (%h,Y)","6CB9H",
"INC (%h,U)","6CD9H",
"INC (%h,S)","6CF9H",
"INC (%g,PCR)","6C9Cs",
"INC (%h,PCR)","6C9DH",
"INC (%h)","6C9FH",
"INC %f,X","6Cf00",
"INC %f,Y","6Cf20",
"INC %f,U","6Cf40",
"INC %f,S","6Cf60",
"INC %g,X","6C88s",
"INC %g,Y","6CA8s",
"INC %g,U","6CC8s",
"INC %g,S","6CE8s",
"INC %h,X","6C89H",
"INC %h,Y","6CA9H",
"INC %h,U","6CC9H",
"INC %h,S","6CE9H",
"INC %g,PCR","6C8Cs",
"INC %h,PCR","6C8DH",
"INC %b","0Cb",
"INC %h","7CH",
"JMP,X","6E84",
"JMP,Y","6EA4",
"JMP,U","6EC4",
"JMP,S","6EE4",
"JMP A,X","6E86",
"JMP A,Y","6EA6",
"JMP A,U","6EC6",
"JMP A,S","6EE6",
"JMP B,X","6E85",
"JMP B,Y","6EA5",
"JMP B,U","6EC5",
"JMP B,S","6EE5",
"JMP D,X","6E8B",
"JMP D,Y","6EAB",
"JMP D,U","6ECB",
"JMP D,S","6EEB",
"JMP,X+","6E80",
"JMP,Y+","6EA0",
"JMP,U+","6EC0",
"JMP,S+","6EE0",
"JMP,X++","6E81",
"JMP,Y++","6EA1",
"JMP,U++","6EC1",
"JMP,S++","6EE1",
"JMP,-X","6E82",
"JMP,-Y","6EA2",
"JMP,-U","6EC2",
"JMP,-S","6EE2",
"JMP,--X","6E83",
"JMP,--Y","6EA3",
"JMP,--U","6EC3",
"JMP,--S","6EE3",
"JMP (,X)","6E94",
"JMP (,Y)","6EB4",
"JMP (,U)","6ED4",
"JMP (,S)","6EF4",
"JMP (A,X)","6E96",
"JMP (A,Y)","6EB6",
"JMP (A,U)","6ED6",
"JMP (A,S)","6EF6",
"JMP (B,X)","6E95",
"JMP (B,Y)","6EB5",
"JMP (B,U)","6ED5",
"JMP (B,S)","6EF5",
"JMP (D,X)","6E9B",
"JMP (D,Y)","6EBB",
"JMP (D,U)","6EDB",
"JMP (D,S)","6EFB",
"JMP (,X++)","6E91",
"JMP (,Y++)","6EB1",
"JMP (,U++)","6ED1",
"JMP (,S++)","6EF1",
"JMP (,--X)","6E93",
"JMP (,--Y)","6EB3",
"JMP (,--U)","6ED3",
"JMP (,--S)","6EF3",
"JMP (%g,X)","6E98s",
"JMP (%g,Y)","6EB8s",
"JMP (%g,U)","6ED8s",
"JMP (%g,S)","6EF8s",
"JMP (%h,X)","6E99H",
"JMP (%h,Y)","6EB9H",
"JMP (%h,U)","6ED9H",
"JMP (%h,S)","6EF9H",
"JMP (%g,PCR)","6E9Cs",
"JMP (%h,PCR)","6E9DH",
"JMP (%h)","6E9FH",
"JMP %f,X","6Ef00",
"JMP %f,Y","6Ef20",
"JMP %f,U","6Ef40",
"JMP %f,S","6Ef60",
"JMP %g,X","6E88s",
"JMP %g,Y","6EA8s",
"JMP %g,U","6EC8s",
"JMP %g,S","6EE8s",
"JMP %h,X","6E89H",
"JMP %h,Y","6EA9H",
"JMP %h,U","6EC9H",
"JMP %h,S","6EE9H",
"JMP %g,PCR","6E8Cs",
"JMP %h,PCR","6E8DH",
"JMP %b","0Eb",
"JMP %h","7EH",
"JSR,X","AD84",
"JSR,Y","ADA4",
"JSR,U","ADC4",
"JSR,S","ADE4",
"JSR A,X","AD86",
"JSR A,Y","ADA6",
"JSR A,U","ADC6",
"JSR A,S","ADE6",
"JSR B,X","AD85",
"JSR B,Y","ADA5",
"JSR B,U","ADC5",
"JSR B,S","ADE5",
"JSR D,X","AD8B",
"JSR D,Y","ADAB",
"JSR D,U","ADCB",
"JSR D,S","ADEB",
"JSR,X+","AD80",
"JSR,Y+","ADA0",
"JSR,U+","ADC0",
"JSR,S+","ADE0",
"JSR,X++","AD81",
"JSR,Y++","ADA1",
"JSR,U++","ADC1",
"JSR,S++","ADE1",
"JSR,-X","AD82",
"JSR,-Y","ADA2",
"JSR,-U","ADC2",
"JSR,-S","ADE2",
"JSR,--X","AD83",
"JSR,--Y","ADA3",
"JSR,--U","ADC3",
"JSR,--S","ADE3",
"JSR (,X)","AD94",
"JSR (,Y)","ADB4",
"JSR (,U)","ADD4",
"JSR (,S)","ADF4",
"JSR (A,X)","AD96",
"JSR (A,Y)","ADB6",
"JSR (A,U)","ADD6",
"JSR (A,S)","ADF6",
"JSR (B,X)","AD95",
"JSR (B,Y)","ADB5",
"JSR (B,U)","ADD5",
"JSR (B,S)","ADF5",
"JSR (D,X)","AD9B",
"JSR (D,Y)","ADBB",
"JSR (D,U)","ADDB",
"JSR (D,S)","ADFB",
"JSR (,X++)","AD91",
"JSR (,Y++)","ADB1",
"JSR (,U++)","ADD1",
"JSR (,S++)","ADF1",
"JSR (,--X)","AD93",
"JSR (,--Y)","ADB3",
"JSR (,--U)","ADD3",
"JSR (,--S)","ADF3",
"JSR (%g,X)","AD98s",
"JSR (%g,Y)","ADB8s",
"JSR (%g,U)","ADD8s",
"JSR (%g,S)","ADF8s",
"JSR (%h,X)","AD99H",
"JSR (%h,Y)","ADB9H",
"JSR (%h,U)","ADD9H",
"JSR (%h,S)","ADF9H",
"JSR (%g,PCR)","AD9Cs",
"JSR (%h,PCR)","AD9DH",
"JSR (%h)","AD9FH",
"JSR %f,X","ADf00",
"JSR %f,Y","ADf20",
"JSR %f,U","ADf40",
"JSR %f,S","ADf60",
"JSR %g,X","AD88s",
"JSR %g,Y","ADA8s",
"JSR %g,U","ADC8s",
"JSR %g,S","ADE8s",
"JSR %h,X","AD89H",
"JSR %h,Y","ADA9H",
"JSR %h,U","ADC9H",
"JSR %h,S","ADE9H",
"JSR %g,PCR","AD8Cs",
"JSR %h,PCR","AD8DH",
"JSR %b","9Db",
"JSR %h","BDH",
"LDA #%b","86b",
"LDA,X","A684",
"LDA,Y","A6A4",
"LDA,U","A6C4",
"LDA,S","A6E4",
"LDA A,X","A686",
"LDA A,Y","A6A6",
"LDA A,U","A6C6",
"LDA A,S","A6E6",
"LDA B,X","A685",
"LDA B,Y","A6A5",
"LDA B,U","A6C5",
"LDA B,S","A6E5",
"LDA D,X","A68B",
"LDA D,Y","A6AB",
"LDA D,U","A6CB",
"LDA D,S","A6EB",
"LDA,X+","A680",
"LDA,Y+","A6A0",
"LDA,U+","A6C0",
"LDA,S+","A6E0",
"LDA,X++","A681",
"LDA,Y++","A6A1",
"LDA,U++","A6C1",
"LDA,S++","A6E1",
"LDA,-X","A682",
"LDA,-Y","A6A2",
"LDA,-U","A6C2",
"LDA,-S","A6E2",
"LDA,--X","A683",
"LDA,--Y","A6A3",
"LDA,--U","A6C3",
"LDA,--S","A6E3",
"LDA (,X)","A694",
"LDA (,Y)","A6B4",
"LDA (,U)","A6D4",
"LDA (,S)","A6F4",
"LDA (A,X)","A696",
"LDA (A,Y)","A6B6",
"LDA (A,U)","A6D6",
"LDA (A,S)","A6F6",
"LDA (B,X)","A695",
"LDA (B,Y)","A6B5",
"LDA (B,U)","A6D5",
"LDA (B,S)","A6F5",
"LDA (D,X)","A69B",
"LDA (D,Y)","A6BB",
"LDA (D,U)","A6DB",
"LDA (D,S)","A6FB",
"LDA (,X++)","A691",
"LDA (,Y++)","A6B1",
"LDA (,U++)","A6D1",
"LDA (,S++)","A6F1",
"LDA (,--X)","A693",
"LDA (,--Y)","A6B3",
"LDA (,--U)","A6D3",
"LDA (,--S)","A6F3",
"LDA (%g,X)","A698s",
"LDA (%g,Y)","A6B8s",
"LDA (%g,U)","A6D8s",
"LDA (%g,S)","A6F8s",
"LDA (%h,X)","A699H",
"LDA (%h,Y)","A6B9H",
"LDA (%h,U)","A6D9H",
"LDA (%h,S)","A6F9H",
"LDA (%g,PCR)","A69Cs",
"LDA (%h,PCR)","A69DH",
"LDA (%h)","A69FH",
"LDA %f,X","A6f00",
"LDA %f,Y","A6f20",
"LDA %f,U","A6f40",
"LDA %f,S","A6f60",
"LDA %g,X","A688s",
"LDA %g,Y","A6A8s",
"LDA %g,U","A6C8s",
"LDA %g,S","A6E8s",
"LDA %h,X","A689H",
"LDA %h,Y","A6A9H",
"LDA %h,U","A6C9H",
"LDA %h,S","A6E9H",
"LDA %g,PCR","A68Cs",
"LDA %h,PCR","A68DH",
"LDA %b","96b",
"LDA %h","B6H",
"LDB #%b","C6b",
"LDB,X","E684",
"LDB,Y","E6A4",
"LDB,U","E6C4",
"LDB,S","E6E4",
"LDB A,X","E686",
"LDB A,Y","E6A6",
"LDB A,U","E6C6",
"LDB A,S","E6E6",
"LDB B,X","E685",
"LDB B,Y","E6A5",
"LDB B,U","E6C5",
"LDB B,S","E6E5",
"LDB D,X","E68B",
"LDB D,Y","E6AB",
"LDB D,U","E6CB",
"LDB D,S","E6EB",
"LDB,X+","E680",
"LDB,Y+","E6A0",
"LDB,U+","E6C0",
"LDB,S+","E6E0",
"LDB,X++","E681",
"LDB,Y++","E6A1",
"LDB,U++","E6C1",
"LDB,S++","E6E1",
"LDB,-X","E682",
"LDB,-Y","E6A2",
"LDB,-U","E6C2",
"LDB,-S","E6E2",
"LDB,--X","E683",
"LDB,--Y","E6A3",
"LDB,--U","E6C3",
"LDB,--S","E6E3",
"LDB (,X)","E694",
"LDB (,Y)","E6B4",
"LDB (,U)","E6D4",
"LDB (,S)","E6F4",
"LDB (A,X)","E696",
"LDB (A,Y)","E6B6",
"LDB (A,U)","E6D6",
"LDB (A,S)","E6F6",
"LDB (B,X)","E695",
"LDB (B,Y)","E6B5",
"LDB (B,U)","E6D5",
"LDB (B,S)","E6F5",
"LDB (D,X)","E69B",
"LDB (D,Y)","E6BB",
"LDB (D,U)","E6DB",
"LDB (D,S)","E6FB",
"LDB (,X++)","E691",
"LDB (,Y++)","E6B1",
"LDB (,U++)","E6D1",
"LDB (,S++)","E6F1",
"LDB (,--X)","E693",
"LDB (,--Y)","E6B3",
"LDB (,--U)","E6D3",
"LDB (,--S)","E6F3",
"LDB (%g,X)","E698s",
"LDB (%g,Y)","E6B8s",
"LDB (%g,U)","E6D8s",
"LDB (%g,S)","E6F8s",
"LDB (%h,X)","E699H",
"LDB (%h,Y)","E6B9H",
"LDB (%h,U)","E6D9H",
"LDB (%h,S)","E6F9H",
"LDB (%g,PCR)","E69Cs",
"LDB (%h,PCR)","E69DH",
"LDB (%h)","E69FH",
"LDB %f,X","E6f00",
"LDB %f,Y","E6f20",
"LDB %f,U","E6f40",
"LDB %f,S","E6f60",
"LDB %g,X","E688s",
"LDB %g,Y","E6A8s",
"LDB %g,U","E6C8s",
"LDB %g,S","E6E8s",
"LDB %h,X","E689H",
"LDB %h,Y","E6A9H",
"LDB %h,U","E6C9H",
"LDB %h,S","E6E9H",
"LDB %g,PCR","E68Cs",
"LDB %h,PCR","E68DH",
"LDB %b","D6b",
"LDB %h","F6H",
"LDD #%w","CCW",
"LDD,X","EC84",
"LDD,Y","ECA4",
"LDD,U","ECC4",
"LDD,S","ECE4",
"LDD A,X","EC86",
"LDD A,Y","ECA6",
"LDD A,U","ECC6",
"LDD A,S","ECE6",
"LDD B,X","EC85",
"LDD B,Y","ECA5",
"LDD B,U","ECC5",
"LDD B,S","ECE5",
"LDD D,X","EC8B",
"LDD D,Y","ECAB",
"LDD D,U","ECCB",
"LDD D,S","ECEB",
"LDD,X+","EC80",
"LDD,Y+","ECA0",
"LDD,U+","ECC0",
"LDD,S+","ECE0",
"LDD,X++","EC81",
"LDD,Y++","ECA1",
"LDD,U++","ECC1",
"LDD,S++","ECE1",
"LDD,-X","EC82",
"LDD,-Y","ECA2",
"LDD,-U","ECC2",
"LDD,-S","ECE2",
"LDD,--X","EC83",
"LDD,--Y","ECA3",
"LDD,--U","ECC3",
"LDD,--S","ECE3",
"LDD (,X)","EC94",
"LDD (,Y)","ECB4",
"LDD (,U)","ECD4",
"LDD (,S)","ECF4",
"LDD (A,X)","EC96",
"LDD (A,Y)","ECB6",
"LDD (A,U)","ECD6",
"LDD (A,S)","ECF6",
"LDD (B,X)","EC95",
"LDD (B,Y)","ECB5",
"LDD (B,U)","ECD5",
"LDD (B,S)","ECF5",
"LDD (D,X)","EC9B",
"LDD (D,Y)","ECBB",
"LDD (D,U)","ECDB",
"LDD (D,S)","ECFB",
"LDD (,X++)","EC91",
"LDD (,Y++)","ECB1",
"LDD (,U++)","ECD1",
"LDD (,S++)","ECF1",
"LDD (,--X)","EC93",
"LDD (,--Y)","ECB3",
"LDD (,--U)","ECD3",
"LDD (,--S)","ECF3",
"LDD (%g,X)","EC98s",
"LDD (%g,Y)","ECB8s",
"LDD (%g,U)","ECD8s",
"LDD (%g,S)","ECF8s",
"LDD (%h,X)","EC99H",
"LDD (%h,Y)","ECB9H",
"LDD (%h,U)","ECD9H",
"LDD (%h,S)","ECF9H",
"LDD (%g,PCR)","EC9Cs",
"LDD (%h,PCR)","EC9DH",
"LDD (%h)","EC9FH",
"LDD %f,X","ECf00",
"LDD %f,Y","ECf20",
"LDD %f,U","ECf40",
"LDD %f,S","ECf60",
"LDD %g,X","EC88s",
"LDD %g,Y","ECA8s",
"LDD %g,U","ECC8s",
"LDD %g,S","ECE8s",
"LDD %h,X","EC89H",
"LDD %h,Y","ECA9H",
"LDD %h,U","ECC9H",
"LDD %h,S","ECE9H",
"LDD %g,PCR","EC8Cs",
"LDD %h,PCR","EC8DH",
"LDD %b","DCb",
"LDD %h","FCH",
"LDS #%w","10CEW",
"LDS,X","10EE84",
"LDS,Y","10EEA4",
"LDS,U","10EEC4",
"LDS,S","10EEE4",
"LDS A,X","10EE86",
"LDS A,Y","10EEA6",
"LDS A,U","10EEC6",
"LDS A,S","10EEE6",
"LDS B,X","10EE85",
"LDS B,Y","10EEA5",
"LDS B,U","10EEC5",
"LDS B,S","10EEE5",
"LDS D,X","10EE8B",
"LDS D,Y","10EEAB",
"LDS D,U","10EECB",
"LDS D,S","10EEEB",
"LDS,X+","10EE80",
"LDS,Y+","10EEA0",
"LDS,U+","10EEC0",
"LDS,S+","10EEE0",
"LDS,X++","10EE81",
"LDS,Y++","10EEA1",
"LDS,U++","10EEC1",
"LDS,S++","10EEE1",
"LDS,-X","10EE82",
"LDS,-Y","10EEA2",
"LDS,-U","10EEC2",
"LDS,-S","10EEE2",
"LDS,--X","10EE83",
"LDS,--Y","10EEA3",
"LDS,--U","10EEC3",
"LDS,--S","10EEE3",
"LDS (,X)","10EE94",
"LDS (,Y)","10EEB4",
"LDS (,U)","10EED4",
"LDS (,S)","10EEF4",
"LDS (A,X)","10EE96",
"LDS (A,Y)","10EEB6",
"LDS (A,U)","10EED6",
"LDS (A,S)","10EEF6",
"LDS (B,X)","10EE95",
"LDS (B,Y)","10EEB5",
"LDS (B,U)","10EED5",
"LDS (B,S)","10EEF5",
"LDS (D,X)","10EE9B",
"LDS (D,Y)","10EEBB",
"LDS (D,U)","10EEDB",
"LDS (D,S)","10EEFB",
"LDS (,X++)","10EE91",
"LDS (,Y++)","10EEB1",
"LDS (,U++)","10EED1",
"LDS (,S++)","10EEF1",
"LDS (,--X)","10EE93",
"LDS (,--Y)","10EEB3",
"LDS (,--U)","10EED3",
"LDS (,--S)","10EEF3",
"LDS (%g,X)","10EE98s",
"LDS (%g,Y)","10EEB8s",
"LDS (%g,U)","10EED8s",
"LDS (%g,S)","10EEF8s",
"LDS (%h,X)","10EE99H",
"LDS (%h,Y)","10EEB9H",
"LDS (%h,U)","10EED9H",
"LDS (%h,S)","10EEF9H",
"LDS (%g,PCR)","10EE9Cs",
"LDS (%h,PCR)","10EE9DH",
"LDS (%h)","10EE9FH",
"LDS %f,X","10EEf00",
"LDS %f,Y","10EEf20",
"LDS %f,U","10EEf40",
"LDS %f,S","10EEf60",
"LDS %g,X","10EE88s",
"LDS %g,Y","10EEA8s",
"LDS %g,U","10EEC8s",
"LDS %g,S","10EEE8s",
"LDS %h,X","10EE89H",
"LDS %h,Y","10EEA9H",
"LDS %h,U","10EEC9H",
"LDS %h,S","10EEE9H",
"LDS %g,PCR","10EE8Cs",
"LDS %h,PCR","10EE8DH",
"LDS %b","10DEb",
"LDS %h","10FEH",
"LDU #%w","CEW",
"LDU,X","EE84",
"LDU,Y","EEA4",
"LDU,U","EEC4",
"LDU,S","EEE4",
"LDU A,X","EE86",
"LDU A,Y","EEA6",
"LDU A,U","EEC6",
"LDU A,S","EEE6",
"LDU B,X","EE85",
"LDU B,Y","EEA5",
"LDU B,U","EEC5",
"LDU B,S","EEE5",
"LDU D,X","EE8B",
"LDU D,Y","EEAB",
"LDU D,U","EECB",
"LDU D,S","EEEB",
"LDU,X+","EE80",
"LDU,Y+","EEA0",
"LDU,U+","EEC0",
"LDU,S+","EEE0",
"LDU,X++","EE81",
"LDU,Y++","EEA1",
"LDU,U++","EEC1",
"LDU,S++","EEE1",
"LDU,-X","EE82",
"LDU,-Y","EEA2",
"LDU,-U","EEC2",
"LDU,-S","EEE2",
"LDU,--X","EE83",
"LDU,--Y","EEA3",
"LDU,--U","EEC3",
"LDU,--S","EEE3",
"LDU (,X)","EE94",
"LDU (,Y)","EEB4",
"LDU (,U)","EED4",
"LDU (,S)","EEF4",
"LDU (A,X)","EE96",
"LDU (A,Y)","EEB6",
"LDU (A,U)","EED6",
"LDU (A,S)","EEF6",
"LDU (B,X)","EE95",
"LDU (B,Y)","EEB5",
"LDU (B,U)","EED5",
"LDU (B,S)","EEF5",
"LDU (D,X)","EE9B",
"LDU (D,Y)","EEBB",
"LDU (D,U)","EEDB",
"LDU (D,S)","EEFB",
"LDU (,X++)","EE91",
"LDU (,Y++)","EEB1",
"LDU (,U++)","EED1",
"LDU (,S++)","EEF1",
"LDU (,--X)","EE93",
"LDU (,--Y)","EEB3",
"LDU (,--U)","EED3",
"LDU (,--S)","EEF3",
"LDU (%g,X)","EE98s",
"LDU (%g,Y)","EEB8s",
"LDU (%g,U)","EED8s",
"LDU (%g,S)","EEF8s",
"LDU (%h,X)","EE99H",
"LDU (%h,Y)","EEB9H",
"LDU (%h,U)","EED9H",
"LDU (%h,S)","EEF9H",
"LDU (%g,PCR)","EE9Cs",
"LDU (%h,PCR)","EE9DH",
"LDU (%h)","EE9FH",
"LDU %f,X","EEf00",
"LDU %f,Y","EEf20",
"LDU %f,U","EEf40",
"LDU %f,S","EEf60",
"LDU %g,X","EE88s",
"LDU %g,Y","EEA8s",
"LDU %g,U","EEC8s",
"LDU %g,S","EEE8s",
"LDU %h,X","EE89H",
"LDU %h,Y","EEA9H",
"LDU %h,U","EEC9H",
"LDU %h,S","EEE9H",
"LDU %g,PCR","EE8Cs",
"LDU %h,PCR","EE8DH",
"LDU %b","DEb",
"LDU %h","FEH",
"LDX #%w","8EW",
"LDX,X","AE84",
"LDX,Y","AEA4",
"LDX,U","AEC4",
"LDX,S","AEE4",
"LDX A,X","AE86",
"LDX A,Y","AEA6",
"LDX A,U","AEC6",
"LDX A,S","AEE6",
"LDX B,X","AE85",
"LDX B,Y","AEA5",
"LDX B,U","AEC5",
"LDX B,S","AEE5",
"LDX D,X","AE8B",
"LDX D,Y","AEAB",
"LDX D,U","AECB",
"LDX D,S","AEEB",
"LDX,X+","AE80",
"LDX,Y+","AEA0",
"LDX,U+","AEC0",
"LDX,S+","AEE0",
"LDX,X++","AE81",
"LDX,Y++","AEA1",
"LDX,U++","AEC1",
"LDX,S++","AEE1",
"LDX,-X","AE82",
"LDX,-Y","AEA2",
"LDX,-U","AEC2",
"LDX,-S","AEE2",
"LDX,--X","AE83",
"LDX,--Y","AEA3",
"LDX,--U","AEC3",
"LDX,--S","AEE3",
"LDX (,X)","AE94",
"LDX (,Y)","AEB4",
"LDX (,U)","AED4",
"LDX (,S)","AEF4",
"LDX (A,X)","AE96",
"LDX (A,Y)","AEB6",
"LDX (A,U)","AED6",
"LDX (A,S)","AEF6",
"LDX (B,X)","AE95",
"LDX (B,Y)","AEB5",
"LDX (B,U)","AED5",
"LDX (B,S)","AEF5",
"LDX (D,X)","AE9B",
"LDX (D,Y)","AEBB",
"LDX (D,U)","AEDB",
"LDX (D,S)","AEFB",
"LDX (,X++)","AE91",
"LDX (,Y++)","AEB1",
"LDX (,U++)","AED1",
"LDX (,S++)","AEF1",
"LDX (,--X)","AE93",
"LDX (,--Y)","AEB3",
"LDX (,--U)","AED3",
"LDX (,--S)","AEF3",
"LDX (%g,X)","AE98s",
"LDX (%g,Y)","AEB8s",
"LDX (%g,U)","AED8s",
"LDX (%g,S)","AEF8s",
"LDX (%h,X)","AE99H",
"LDX (%h,Y)","AEB9H",
"LDX (%h,U)","AED9H",
"LDX (%h,S)","AEF9H",
"LDX (%g,PCR)","AE9Cs",
"LDX (%h,PCR)","AE9DH",
"LDX (%h)","AE9FH",
"LDX %f,X","AEf00",
"LDX %f,Y","AEf20",
"LDX %f,U","AEf40",
"LDX %f,S","AEf60",
"LDX %g,X","AE88s",
"LDX %g,Y","AEA8s",
"LDX %g,U","AEC8s",
"LDX %g,S","AEE8s",
"LDX %h,X","AE89H",
"LDX %h,Y","AEA9H",
"LDX %h,U","AEC9H",
"LDX %h,S","AEE9H",
"LDX %g,PCR","AE8Cs",
"LDX %h,PCR","AE8DH",
"LDX %b","9Eb",
"LDX %h","BEH",
"LDY #%w","108EW",
"LDY,X","10AE84",
"LDY,Y","10AEA4",
"LDY,U","10AEC4",
"LDY,S","10AEE4",
"LDY A,X","10AE86",
"LDY A,Y","10AEA6",
"LDY A,U","10AEC6",
"LDY A,S","10AEE6",
"LDY B,X","10AE85",
"LDY B,Y","10AEA5",
"LDY B,U","10AEC5",
"LDY B,S","10AEE5",
"LDY D,X","10AE8B",
"LDY D,Y","10AEAB",
"LDY D,U","10AECB",
"LDY D,S","10AEEB",
"LDY,X+","10AE80",
"LDY,Y+","10AEA0",
"LDY,U+","10AEC0",
"LDY,S+","10AEE0",
"LDY,X++","10AE81",
"LDY,Y++","10AEA1",
"LDY,U++","10AEC1",
"LDY,S++","10AEE1",
"LDY,-X","10AE82",
"LDY,-Y","10AEA2",
"LDY,-U","10AEC2",
"LDY,-S","10AEE2",
"LDY,--X","10AE83",
"LDY,--Y","10AEA3",
"LDY,--U","10AEC3",
"LDY,--S","10AEE3",
"LDY (,X)","10AE94",
"LDY (,Y)","10AEB4",
"LDY (,U)","10AED4",
"LDY (,S)","10AEF4",
"LDY (A,X)","10AE96",
"LDY (A,Y)","10AEB6",
"LDY (A,U)","10AED6",
"LDY (A,S)","10AEF6",
"LDY (B,X)","10AE95",
"LDY (B,Y)","10AEB5",
"LDY (B,U)","10AED5",
"LDY (B,S)","10AEF5",
"LDY (D,X)","10AE9B",
"LDY (D,Y)","10AEBB",
"LDY (D,U)","10AEDB",
"LDY (D,S)","10AEFB",
"LDY (,X++)","10AE91",
"LDY (,Y++)","10AEB1",
"LDY (,U++)","10AED1",
"LDY (,S++)","10AEF1",
"LDY (,--X)","10AE93",
"LDY (,--Y)","10AEB3",
"LDY (,--U)","10AED3",
"LDY (,--S)","10AEF3",
"LDY (%g,X)","10AE98s",
"LDY (%g,Y)","10AEB8s",
"LDY (%g,U)","10AED8s",
"LDY (%g,S)","10AEF8s",
"LDY (%h,X)","10AE99H",
"LDY (%h,Y)","10AEB9H",
"LDY (%h,U)","10AED9H",
"LDY (%h,S)","10AEF9H",
"LDY (%g,PCR)","10AE9Cs",
"LDY (%h,PCR)","10AE9DH",
"LDY (%h)","10AE9FH",
"LDY %f,X","10AEf00",
"LDY %f,Y","10AEf20",
"LDY %f,U","10AEf40",
"LDY %f,S","10AEf60",
"LDY %g,X","10AE88s",
"LDY %g,Y","10AEA8s",
"LDY %g,U","10AEC8s",
"LDY %g,S","10AEE8s",
"LDY %h,X","10AE89H",
"LDY %h,Y","10AEA9H",
"LDY %h,U","10AEC9H",
"LDY %h,S","10AEE9H",
"LDY %g,PCR","10AE8Cs",
"LDY %h,PCR","10AE8DH",
"LDY %b","109Eb",
"LDY %h","10BEH",
"LEAS,X","3284",
"LEAS,Y","32A4",
"LEAS,U","32C4",
"LEAS,S","32E4",
"LEAS A,X","3286",
"LEAS A,Y","32A6",
"LEAS A,U","32C6",
"LEAS A,S","32E6",
"LEAS B,X","3285",
"LEAS B,Y","32A5",
"LEAS B,U","32C5",
"LEAS B,S","32E5",
"LEAS D,X","328B",
"LEAS D,Y","32AB",
"LEAS D,U","32CB",
"LEAS D,S","32EB",
"LEAS,X+","3280",
"LEAS,Y+","32A0",
"LEAS,U+","32C0",
"LEAS,S+","32E0",
"LEAS,X++","3281",
"LEAS,Y++","32A1",
"LEAS,U++","32C1",
"LEAS,S++","32E1",
"LEAS,-X","3282",
"LEAS,-Y","32A2",
"LEAS,-U","32C2",
"LEAS,-S","32E2",
"LEAS,--X","3283",
"LEAS,--Y","32A3",
"LEAS,--U","32C3",
"LEAS,--S","32E3",
"LEAS (,X)","3294",
"LEAS (,Y)","32B4",
"LEAS (,U)","32D4",
"LEAS (,S)","32F4",
"LEAS (A,X)","3296",
"LEAS (A,Y)","32B6",
"LEAS (A,U)","32D6",
"LEAS (A,S)","32F6",
"LEAS (B,X)","3295",
"LEAS (B,Y)","32B5",
"LEAS (B,U)","32D5",
"LEAS (B,S)","32F5",
"LEAS (D,X)","329B",
"LEAS (D,Y)","32BB",
"LEAS (D,U)","32DB",
"LEAS (D,S)","32FB",
"LEAS (,X++)","3291",
"LEAS (,Y++)","32B1",
"LEAS (,U++)","32D1",
"LEAS (,S++)","32F1",
"LEAS (,--X)","3293",
"LEAS (,--Y)","32B3",
"LEAS (,--U)","32D3",
"LEAS (,--S)","32F3",
"LEAS (%g,X)","3298s",
"LEAS (%g,Y)","32B8s",
"LEAS (%g,U)","32D8s",
"LEAS (%g,S)","32F8s",
"LEAS (%h,X)","3299H",
"LEAS (%h,Y)","32B9H",
"LEAS (%h,U)","32D9H",
"LEAS (%h,S)","32F9H",
"LEAS (%g,PCR)","329Cs",
"LEAS (%h,PCR)","329DH",
"LEAS (%h)","329FH",
"LEAS %f,X","32f00",
"LEAS %f,Y","32f20",
"LEAS %f,U","32f40",
"LEAS %f,S","32f60",
"LEAS %g,X","3288s",
"LEAS %g,Y","32A8s",
"LEAS %g,U","32C8s",
"LEAS %g,S","32E8s",
"LEAS %h,X","3289H",
"LEAS %h,Y","32A9H",
"LEAS %h,U","32C9H",
"LEAS %h,S","32E9H",
"LEAS %g,PCR","328Cs",
"LEAS %h,PCR","328DH",
"LEAU,X","3384",
"LEAU,Y","33A4",
"LEAU,U","33C4",
"LEAU,S","33E4",
"LEAU A,X","3386",
"LEAU A,Y","33A6",
"LEAU A,U","33C6",
"LEAU A,S","33E6",
"LEAU B,X","3385",
"LEAU B,Y","33A5",
"LEAU B,U","33C5",
"LEAU B,S","33E5",
"LEAU D,X","338B",
"LEAU D,Y","33AB",
"LEAU D,U","33CB",
"LEAU D,S","33EB",
"LEAU,X+","3380",
"LEAU,Y+","33A0",
"LEAU,U+","33C0",
"LEAU,S+","33E0",
"LEAU,X++","3381",
"LEAU,Y++","33A1",
"LEAU,U++","33C1",
"LEAU,S++","33E1",
"LEAU,-X","3382",
"LEAU,-Y","33A2",
"LEAU,-U","33C2",
"LEAU,-S","33E2",
"LEAU,--X","3383",
"LEAU,--Y","33A3",
"LEAU,--U","33C3",
"LEAU,--S","33E3",
"LEAU (,X)","3394",
"LEAU (,Y)","33B4",
"LEAU (,U)","33D4",
"LEAU (,S)","33F4",
"LEAU (A,X)","3396",
"LEAU (A,Y)","33B6",
"LEAU (A,U)","33D6",
"LEAU (A,S)","33F6",
"LEAU (B,X)","3395",
"LEAU (B,Y)","33B5",
"LEAU (B,U)","33D5",
"LEAU (B,S)","33F5",
"LEAU (D,X)","339B",
"LEAU (D,Y)","33BB",
"LEAU (D,U)","33DB",
"LEAU (D,S)","33FB",
"LEAU (,X++)","3391",
"LEAU (,Y++)","33B1",
"LEAU (,U++)","33D1",
"LEAU (,S++)","33F1",
"LEAU (,--X)","3393",
"LEAU (,--Y)","33B3",
"LEAU (,--U)","33D3",
"LEAU (,--S)","33F3",
"LEAU (%g,X)","3398s",
"LEAU (%g,Y)","33B8s",
"LEAU (%g,U)","33D8s",
"LEAU (%g,S)","33F8s",
"LEAU (%h,X)","3399H",
"LEAU (%h,Y)","33B9H",
"LEAU (%h,U)","33D9H",
"LEAU (%h,S)","33F9H",
"LEAU (%g,PCR)","339Cs",
"LEAU (%h,PCR)","339DH",
"LEAU (%h)","339FH",
"LEAU %f,X","33f00",
"LEAU %f,Y","33f20",
"LEAU %f,U","33f40",
"LEAU %f,S","33f60",
"LEAU %g,X","3388s",
"LEAU %g,Y","33A8s",
"LEAU %g,U","33C8s",
"LEAU %g,S","33E8s",
"LEAU %h,X","3389H",
"LEAU %h,Y","33A9H",
"LEAU %h,U","33C9H",
"LEAU %h,S","33E9H",
"LEAU %g,PCR","338Cs",
"LEAU %h,PCR","338DH",
"LEAX,X","3084",
"LEAX,Y","30A4",
"LEAX,U","30C4",
"LEAX,S","30E4",
"LEAX A,X","3086",
"LEAX A,Y","30A6",
"LEAX A,U","30C6",
"LEAX A,S","30E6",
"LEAX B,X","3085",
"LEAX B,Y","30A5",
"LEAX B,U","30C5",
"LEAX B,S","30E5",
"LEAX D,X","308B",
"LEAX D,Y","30AB",
"LEAX D,U","30CB",
"LEAX D,S","30EB",
"LEAX,X+","3080",
"LEAX,Y+","30A0",
"LEAX,U+","30C0",
"LEAX,S+","30E0",
"LEAX,X++","3081",
"LEAX,Y++","30A1",
"LEAX,U++","30C1",
"LEAX,S++","30E1",
"LEAX,-X","3082",
"LEAX,-Y","30A2",
"LEAX,-U","30C2",
"LEAX,-S","30E2",
"LEAX,--X","3083",
"LEAX,--Y","30A3",
"LEAX,--U","30C3",
"LEAX,--S","30E3",
"LEAX (,X)","3094",
"LEAX (,Y)","30B4",
"LEAX (,U)","30D4",
"LEAX (,S)","30F4",
"LEAX (A,X)","3096",
"LEAX (A,Y)","30B6",
"LEAX (A,U)","30D6",
"LEAX (A,S)","30F6",
"LEAX (B,X)","3095",
"LEAX (B,Y)","30B5",
"LEAX (B,U)","30D5",
"LEAX (B,S)","30F5",
"LEAX (D,X)","309B",
"LEAX (D,Y)","30BB",
"LEAX (D,U)","30DB",
"LEAX (D,S)","30FB",
"LEAX (,X++)","3091",
"LEAX (,Y++)","30B1",
"LEAX (,U++)","30D1",
"LEAX (,S++)","30F1",
"LEAX (,--X)","3093",
"LEAX (,--Y)","30B3",
"LEAX (,--U)","30D3",
"LEAX (,--S)","30F3",
"LEAX (%g,X)","3098s",
"LEAX (%g,Y)","30B8s",
"LEAX (%g,U)","30D8s",
"LEAX (%g,S)","30F8s",
"LEAX (%h,X)","3099H",
"LEAX (%h,Y)","30B9H",
"LEAX (%h,U)","30D9H",
"LEAX (%h,S)","30F9H",
"LEAX (%g,PCR)","309Cs",
"LEAX (%h,PCR)","309DH",
"LEAX (%h)","309FH",
"LEAX %f,X","30f00",
"LEAX %f,Y","30f20",
"LEAX %f,U","30f40",
"LEAX %f,S","30f60",
"LEAX %g,X","3088s",
"LEAX %g,Y","30A8s",
"LEAX %g,U","30C8s",
"LEAX %g,S","30E8s",
"LEAX %h,X","3089H",
"LEAX %h,Y","30A9H",
"LEAX %h,U","30C9H",
"LEAX %h,S","30E9H",
"LEAX %g,PCR","308Cs",
"LEAX %h,PCR","308DH",
"LEAY,X","3184",
"LEAY,Y","31A4",
"LEAY,U","31C4",
"LEAY,S","31E4",
"LEAY A,X","3186",
"LEAY A,Y","31A6",
"LEAY A,U","31C6",
"LEAY A,S","31E6",
"LEAY B,X","3185",
"LEAY B,Y","31A5",
"LEAY B,U","31C5",
"LEAY B,S","31E5",
"LEAY D,X","318B",
"LEAY D,Y","31AB",
"LEAY D,U","31CB",
"LEAY D,S","31EB",
"LEAY,X+","3180",
"LEAY,Y+","31A0",
"LEAY,U+","31C0",
"LEAY,S+","31E0",
"LEAY,X++","3181",
"LEAY,Y++","31A1",
"LEAY,U++","31C1",
"LEAY,S++","31E1",
"LEAY,-X","3182",
"LEAY,-Y","31A2",
"LEAY,-U","31C2",
"LEAY,-S","31E2",
"LEAY,--X","3183",
"LEAY,--Y","31A3",
"LEAY,--U","31C3",
"LEAY,--S","31E3",
"LEAY (,X)","3194",
"LEAY (,Y)","31B4",
"LEAY (,U)","31D4",
"LEAY (,S)","31F4",
"LEAY (A,X)","3196",
"LEAY (A,Y)","31B6",
"LEAY (A,U)","31D6",
"LEAY (A,S)","31F6",
"LEAY (B,X)","3195",
"LEAY (B,Y)","31B5",
"LEAY (B,U)","31D5",
"LEAY (B,S)","31F5",
"LEAY (D,X)","319B",
"LEAY (D,Y)","31BB",
"LEAY (D,U)","31DB",
"LEAY (D,S)","31FB",
"LEAY (,X++)","3191",
"LEAY (,Y++)","31B1",
"LEAY (,U++)","31D1",
"LEAY (,S++)","31F1",
"LEAY (,--X)","3193",
"LEAY (,--Y)","31B3",
"LEAY (,--U)","31D3",
"LEAY (,--S)","31F3",
"LEAY (%g,X)","3198s",
"LEAY (%g,Y)","31B8s",
"LEAY (%g,U)","31D8s",
"LEAY (%g,S)","31F8s",
"LEAY (%h,X)","3199H",
"LEAY (%h,Y)","31B9H",
"LEAY (%h,U)","31D9H",
"LEAY (%h,S)","31F9H",
"LEAY (%g,PCR)","319Cs",
"LEAY (%h,PCR)","319DH",
"LEAY (%h)","319FH",
"LEAY %f,X","31f00",
"LEAY %f,Y","31f20",
"LEAY %f,U","31f40",
"LEAY %f,S","31f60",
"LEAY %g,X","3188s",
"LEAY %g,Y","31A8s",
"LEAY %g,U","31C8s",
"LEAY %g,S","31E8s",
"LEAY %h,X","3189H",
"LEAY %h,Y","31A9H",
"LEAY %h,U","31C9H",
"LEAY %h,S","31E9H",
"LEAY %g,PCR","318Cs",
"LEAY %h,PCR","318DH",
"LSLA","48",
"LSLB","58",
"LSL,X","6884",
"LSL,Y","68A4",
"LSL,U","68C4",
"LSL,S","68E4",
"LSL A,X","6886",
"LSL A,Y","68A6",
"LSL A,U","68C6",
"LSL A,S","68E6",
"LSL B,X","6885",
"LSL B,Y","68A5",
"LSL B,U","68C5",
"LSL B,S","68E5",
"LSL D,X","688B",
"LSL D,Y","68AB",
"LSL D,U","68CB",
"LSL D,S","68EB",
"LSL,X+","6880",
"LSL,Y+","68A0",
"LSL,U+","68C0",
"LSL,S+","68E0",
"LSL,X++","6881",
"LSL,Y++","68A1",
"LSL,U++","68C1",
"LSL,S++","68E1",
"LSL,-X","6882",
"LSL,-Y","68A2",
"LSL,-U","68C2",
"LSL,-S","68E2",
"LSL,--X","6883",
"LSL,--Y","68A3",
"LSL,--U","68C3",
"LSL,--S","68E3",
"LSL (,X)","6894",
"LSL (,Y)","68B4",
"LSL (,U)","68D4",
"LSL (,S)","68F4",
"LSL (A,X)","6896",
"LSL (A,Y)","68B6",
"LSL (A,U)","68D6",
"LSL (A,S)","68F6",
"LSL (B,X)","6895",
"LSL (B,Y)","68B5",
"LSL (B,U)","68D5",
"LSL (B,S)","68F5",
"LSL (D,X)","689B",
"LSL (D,Y)","68BB",
"LSL (D,U)","68DB",
"LSL (D,S)","68FB",
"LSL (,X++)","6891",
"LSL (,Y++)","68B1",
"LSL (,U++)","68D1",
"LSL (,S++)","68F1",
"LSL (,--X)","6893",
"LSL (,--Y)","68B3",
"LSL (,--U)","68D3",
"LSL (,--S)","68F3",
"LSL (%g,X)","6898s",
"LSL (%g,Y)","68B8s",
"LSL (%g,U)","68D8s",
"LSL (%g,S)","68F8s",
"LSL (%h,X)","6899H",
"LSL (%h,Y)","68B9H",
"LSL (%h,U)","68D9H",
"LSL (%h,S)","68F9H",
"LSL (%g,PCR)","689Cs",
"LSL (%h,PCR)","689DH",
"LSL (%h)","689FH",
"LSL %f,X","68f00",
"LSL %f,Y","68f20",
"LSL %f,U","68f40",
"LSL %f,S","68f60",
"LSL %g,X","6888s",
"LSL %g,Y","68A8s",
"LSL %g,U","68C8s",
"LSL %g,S","68E8s",
"LSL %h,X","6889H",
"LSL %h,Y","68A9H",
"LSL %h,U","68C9H",
"LSL %h,S","68E9H",
"LSL %g,PCR","688Cs",
"LSL %h,PCR","688DH",
"LSL %b","08b",
"LSL %h","78H",
"LSRA","44",
"LSRB","54",
"LSR,X","6484",
"LSR,Y","64A4",
"LSR,U","64C4",
"LSR,S","64E4",
"LSR A,X","6486",
"LSR A,Y","64A6",
"LSR A,U","64C6",
"LSR A,S","64E6",
"LSR B,X","6485",
"LSR B,Y","64A5",
"LSR B,U","64C5",
"LSR B,S","64E5",
"LSR D,X","648B",
"LSR D,Y","64AB",
"LSR D,U","64CB",
"LSR D,S","64EB",
"LSR,X+","6480",
"LSR,Y+","64A0",
"LSR,U+","64C0",
"LSR,S+","64E0",
"LSR,X++","6481",
"LSR,Y++","64A1",
"LSR,U++","64C1",
"LSR,S++","64E1",
"LSR,-X","6482",
"LSR,-Y","64A2",
"LSR,-U","64C2",
"LSR,-S","64E2",
"LSR,--X","6483",
"LSR,--Y","64A3",
"LSR,--U","64C3",
"LSR,--S","64E3",
"LSR (,X)","6494",
"LSR (,Y)","64B4",
"LSR (,U)","64D4",
"LSR (,S)","64F4",
"LSR (A,X)","6496",
"LSR (A,Y)","64B6",
"LSR (A,U)","64D6",
"LSR (A,S)","64F6",
"LSR (B,X)","6495",
"LSR (B,Y)","64B5",
"LSR (B,U)","64D5",
"LSR (B,S)","64F5",
"LSR (D,X)","649B",
"LSR (D,Y)","64BB",
"LSR (D,U)","64DB",
"LSR (D,S)","64FB",
"LSR (,X++)","6491",
"LSR (,Y++)","64B1",
"LSR (,U++)","64D1",
"LSR (,S++)","64F1",
"LSR (,--X)","6493",
"LSR (,--Y)","64B3",
"LSR (,--U)","64D3",
"LSR (,--S)","64F3",
"LSR (%g,X)","6498s",
"LSR (%g,Y)","64B8s",
"LSR (%g,U)","64D8s",
"LSR (%g,S)","64F8s",
"LSR (%h,X)","6499H",
"LSR (%h,Y)","64B9H",
"LSR (%h,U)","64D9H",
"LSR (%h,S)","64F9H",
"LSR (%g,PCR)","649Cs",
"LSR (%h,PCR)","649DH",
"LSR (%h)","649FH",
"LSR %f,X","64f00",
"LSR %f,Y","64f20",
"LSR %f,U","64f40",
"LSR %f,S","64f60",
"LSR %g,X","6488s",
"LSR %g,Y","64A8s",
"LSR %g,U","64C8s",
"LSR %g,S","64E8s",
"LSR %h,X","6489H",
"LSR %h,Y","64A9H",
"LSR %h,U","64C9H",
"LSR %h,S","64E9H",
"LSR %g,PCR","648Cs",
"LSR %h,PCR","648DH",
"LSR %b","04b",
"LSR %h","74H",
"MUL","3D",
"NEGA","40",
"NEGB","50",
"NEG,X","6084",
"NEG,Y","60A4",
"NEG,U","60C4",
"NEG,S","60E4",
"NEG A,X","6086",
"NEG A,Y","60A6",
"NEG A,U","60C6",
"NEG A,S","60E6",
"NEG B,X","6085",
"NEG B,Y","60A5",
"NEG B,U","60C5",
"NEG B,S","60E5",
"NEG D,X","608B",
"NEG D,Y","60AB",
"NEG D,U","60CB",
"NEG D,S","60EB",
"NEG,X+","6080",
"NEG,Y+","60A0",
"NEG,U+","60C0",
"NEG,S+","60E0",
"NEG,X++","6081",
"NEG,Y++","60A1",
"NEG,U++","60C1",
"NEG,S++","60E1",
"NEG,-X","6082",
"NEG,-Y","60A2",
"NEG,-U","60C2",
"NEG,-S","60E2",
"NEG,--X","6083",
"NEG,--Y","60A3",
"NEG,--U","60C3",
"NEG,--S","60E3",
"NEG (,X)","6094",
"NEG (,Y)","60B4",
"NEG (,U)","60D4",
"NEG (,S)","60F4",
"NEG (A,X)","6096",
"NEG (A,Y)","60B6",
"NEG (A,U)","60D6",
"NEG (A,S)","60F6",
"NEG (B,X)","6095",
"NEG (B,Y)","60B5",
"NEG (B,U)","60D5",
"NEG (B,S)","60F5",
"NEG (D,X)","609B",
"NEG (D,Y)","60BB",
"NEG (D,U)","60DB",
"NEG (D,S)","60FB",
"NEG (,X++)","6091",
"NEG (,Y++)","60B1",
"NEG (,U++)","60D1",
"NEG (,S++)","60F1",
"NEG (,--X)","6093",
"NEG (,--Y)","60B3",
"NEG (,--U)","60D3",
"NEG (,--S)","60F3",
"NEG (%g,X)","6098s",
"NEG (%g,Y)","60B8s",
"NEG (%g,U)","60D8s",
"NEG (%g,S)","60F8s",
"NEG (%h,X)","6099H",
"NEG (%h,Y)","60B9H",
"NEG (%h,U)","60D9H",
"NEG (%h,S)","60F9H",
"NEG (%g,PCR)","609Cs",
"NEG (%h,PCR)","609DH",
"NEG (%h)","609FH",
"NEG %f,X","60f00",
"NEG %f,Y","60f20",
"NEG %f,U","60f40",
"NEG %f,S","60f60",
"NEG %g,X","6088s",
"NEG %g,Y","60A8s",
"NEG %g,U","60C8s",
"NEG %g,S","60E8s",
"NEG %h,X","6089H",
"NEG %h,Y","60A9H",
"NEG %h,U","60C9H",
"NEG %h,S","60E9H",
"NEG %g,PCR","608Cs",
"NEG %h,PCR","608DH",
"NEG %b","00b",
"NEG %h","70H",
"NOP","12",
"ORA #%b","8Ab",
"ORA,X","AA84",
"ORA,Y","AAA4",
"ORA,U","AAC4",
"ORA,S","AAE4",
"ORA A,X","AA86",
"ORA A,Y","AAA6",
"ORA A,U","AAC6",
"ORA A,S","AAE6",
"ORA B,X","AA85",
"ORA B,Y","AAA5",
"ORA B,U","AAC5",
"ORA B,S","AAE5",
"ORA D,X","AA8B",
"ORA D,Y","AAAB",
"ORA D,U","AACB",
"ORA D,S","AAEB",
"ORA,X+","AA80",
"ORA,Y+","AAA0",
"ORA,U+","AAC0",
"ORA,S+","AAE0",
"ORA,X++","AA81",
"ORA,Y++","AAA1",
"ORA,U++","AAC1",
"ORA,S++","AAE1",
"ORA,-X","AA82",
"ORA,-Y","AAA2",
"ORA,-U","AAC2",
"ORA,-S","AAE2",
"ORA,--X","AA83",
"ORA,--Y","AAA3",
"ORA,--U","AAC3",
"ORA,--S","AAE3",
"ORA (,X)","AA94",
"ORA (,Y)","AAB4",
"ORA (,U)","AAD4",
"ORA (,S)","AAF4",
"ORA (A,X)","AA96",
"ORA (A,Y)","AAB6",
"ORA (A,U)","AAD6",
"ORA (A,S)","AAF6",
"ORA (B,X)","AA95",
"ORA (B,Y)","AAB5",
"ORA (B,U)","AAD5",
"ORA (B,S)","AAF5",
"ORA (D,X)","AA9B",
"ORA (D,Y)","AABB",
"ORA (D,U)","AADB",
"ORA (D,S)","AAFB",
"ORA (,X++)","AA91",
"ORA (,Y++)","AAB1",
"ORA (,U++)","AAD1",
"ORA (,S++)","AAF1",
"ORA (,--X)","AA93",
"ORA (,--Y)","AAB3",
"ORA (,--U)","AAD3",
"ORA (,--S)","AAF3",
"ORA (%g,X)","AA98s",
"ORA (%g,Y)","AAB8s",
"ORA (%g,U)","AAD8s",
"ORA (%g,S)","AAF8s",
"ORA (%h,X)","AA99H",
"ORA (%h,Y)","AAB9H",
"ORA (%h,U)","AAD9H",
"ORA (%h,S)","AAF9H",
"ORA (%g,PCR)","AA9Cs",
"ORA (%h,PCR)","AA9DH",
"ORA (%h)","AA9FH",
"ORA %f,X","AAf00",
"ORA %f,Y","AAf20",
"ORA %f,U","AAf40",
"ORA %f,S","AAf60",
"ORA %g,X","AA88s",
"ORA %g,Y","AAA8s",
"ORA %g,U","AAC8s",
"ORA %g,S","AAE8s",
"ORA %h,X","AA89H",
"ORA %h,Y","AAA9H",
"ORA %h,U","AAC9H",
"ORA %h,S","AAE9H",
"ORA %g,PCR","AA8Cs",
"ORA %h,PCR","AA8DH",
"ORA %b","9Ab",
"ORA %h","BAH",
"ORB #%b","CAb",
"ORB,X","EA84",
"ORB,Y","EAA4",
"ORB,U","EAC4",
"ORB,S","EAE4",
"ORB A,X","EA86",
"ORB A,Y","EAA6",
"ORB A,U","EAC6",
"ORB A,S","EAE6",
"ORB B,X","EA85",
"ORB B,Y","EAA5",
"ORB B,U","EAC5",
"ORB B,S","EAE5",
"ORB D,X","EA8B",
"ORB D,Y","EAAB",
"ORB D,U","EACB",
"ORB D,S","EAEB",
"ORB,X+","EA80",
"ORB,Y+","EAA0",
"ORB,U+","EAC0",
"ORB,S+","EAE0",
"ORB,X++","EA81",
"ORB,Y++","EAA1",
"ORB,U++","EAC1",
"ORB,S++","EAE1",
"ORB,-X","EA82",
"ORB,-Y","EAA2",
"ORB,-U","EAC2",
"ORB,-S","EAE2",
"ORB,--X","EA83",
"ORB,--Y","EAA3",
"ORB,--U","EAC3",
"ORB,--S","EAE3",
"ORB (,X)","EA94",
"ORB (,Y)","EAB4",
"ORB (,U)","EAD4",
"ORB (,S)","EAF4",
"ORB (A,X)","EA96",
"ORB (A,Y)","EAB6",
"ORB (A,U)","EAD6",
"ORB (A,S)","EAF6",
"ORB (B,X)","EA95",
"ORB (B,Y)","EAB5",
"ORB (B,U)","EAD5",
"ORB (B,S)","EAF5",
"ORB (D,X)","EA9B",
"ORB (D,Y)","EABB",
"ORB (D,U)","EADB",
"ORB (D,S)","EAFB",
"ORB (,X++)","EA91",
"ORB (,Y++)","EAB1",
"ORB (,U++)","EAD1",
"ORB (,S++)","EAF1",
"ORB (,--X)","EA93",
"ORB (,--Y)","EAB3",
"ORB (,--U)","EAD3",
"ORB (,--S)","EAF3",
"ORB (%g,X)","EA98s",
"ORB (%g,Y)","EAB8s",
"ORB (%g,U)","EAD8s",
"ORB (%g,S)","EAF8s",
"ORB (%h,X)","EA99H",
"ORB (%h,Y)","EAB9H",
"ORB (%h,U)","EAD9H",
"ORB (%h,S)","EAF9H",
"ORB (%g,PCR)","EA9Cs",
"ORB (%h,PCR)","EA9DH",
"ORB (%h)","EA9FH",
"ORB %f,X","EAf00",
"ORB %f,Y","EAf20",
"ORB %f,U","EAf40",
"ORB %f,S","EAf60",
"ORB %g,X","EA88s",
"ORB %g,Y","EAA8s",
"ORB %g,U","EAC8s",
"ORB %g,S","EAE8s",
"ORB %h,X","EA89H",
"ORB %h,Y","EAA9H",
"ORB %h,U","EAC9H",
"ORB %h,S","EAE9H",
"ORB %g,PCR","EA8Cs",
"ORB %h,PCR","EA8DH",
"ORB %b","DAb",
"ORB %h","FAH",
"ORCC #%b","1Ab",
"ROLA","49",
"ROLB","59",
"ROL,X","6984",
"ROL,Y","69A4",
"ROL,U","69C4",
"ROL,S","69E4",
"ROL A,X","6986",
"ROL A,Y","69A6",
"ROL A,U","69C6",
"ROL A,S","69E6",
"ROL B,X","6985",
"ROL B,Y","69A5",
"ROL B,U","69C5",
"ROL B,S","69E5",
"ROL D,X","698B",
"ROL D,Y","69AB",
"ROL D,U","69CB",
"ROL D,S","69EB",
"ROL,X+","6980",
"ROL,Y+","69A0",
"ROL,U+","69C0",
"ROL,S+","69E0",
"ROL,X++","6981",
"ROL,Y++","69A1",
"ROL,U++","69C1",
"ROL,S++","69E1",
"ROL,-X","6982",
"ROL,-Y","69A2",
"ROL,-U","69C2",
"ROL,-S","69E2",
"ROL,--X","6983",
"ROL,--Y","69A3",
"ROL,--U","69C3",
"ROL,--S","69E3",
"ROL (,X)","6994",
"ROL (,Y)","69B4",
"ROL (,U)","69D4",
"ROL (,S)","69F4",
"ROL (A,X)","6996",
"ROL (A,Y)","69B6",
"ROL (A,U)","69D6",
"ROL (A,S)","69F6",
"ROL (B,X)","6995",
"ROL (B,Y)","69B5",
"ROL (B,U)","69D5",
"ROL (B,S)","69F5",
"ROL (D,X)","699B",
"ROL (D,Y)","69BB",
"ROL (D,U)","69DB",
"ROL (D,S)","69FB",
"ROL (,X++)","6991",
"ROL (,Y++)","69B1",
"ROL (,U++)","69D1",
"ROL (,S++)","69F1",
"ROL (,--X)","6993",
"ROL (,--Y)","69B3",
"ROL (,--U)","69D3",
"ROL (,--S)","69F3",
"ROL (%g,X)","6998s",
"ROL (%g,Y)","69B8s",
"ROL (%g,U)","69D8s",
"ROL (%g,S)","69F8s",
"ROL (%h,X)","6999H",
"ROL (%h,Y)","69B9H",
"ROL (%h,U)","69D9H",
"ROL (%h,S)","69F9H",
"ROL (%g,PCR)","699Cs",
"ROL (%h,PCR)","699DH",
"ROL (%h)","699FH",
"ROL %f,X","69f00",
"ROL %f,Y","69f20",
"ROL %f,U","69f40",
"ROL %f,S","69f60",
"ROL %g,X","6988s",
"ROL %g,Y","69A8s",
"ROL %g,U","69C8s",
"ROL %g,S","69E8s",
"ROL %h,X","6989H",
"ROL %h,Y","69A9H",
"ROL %h,U","69C9H",
"ROL %h,S","69E9H",
"ROL %g,PCR","698Cs",
"ROL %h,PCR","698DH",
"ROL %b","09b",
"ROL %h","79H",
"RORA","46",
"RORB","56",
"ROR,X","6684",
"ROR,Y","66A4",
"ROR,U","66C4",
"ROR,S","66E4",
"ROR A,X","6686",
"ROR A,Y","66A6",
"ROR A,U","66C6",
"ROR A,S","66E6",
"ROR B,X","6685",
"ROR B,Y","66A5",
"ROR B,U","66C5",
"ROR B,S","66E5",
"ROR D,X","668B",
"ROR D,Y","66AB",
"ROR D,U","66CB",
"ROR D,S","66EB",
"ROR,X+","6680",
"ROR,Y+","66A0",
"ROR,U+","66C0",
"ROR,S+","66E0",
"ROR,X++","6681",
"ROR,Y++","66A1",
"ROR,U++","66C1",
"ROR,S++","66E1",
"ROR,-X","6682",
"ROR,-Y","66A2",
"ROR,-U","66C2",
"ROR,-S","66E2",
"ROR,--X","6683",
"ROR,--Y","66A3",
"ROR,--U","66C3",
"ROR,--S","66E3",
"ROR (,X)","6694",
"ROR (,Y)","66B4",
"ROR (,U)","66D4",
"ROR (,S)","66F4",
"ROR (A,X)","6696",
"ROR (A,Y)","66B6",
"ROR (A,U)","66D6",
"ROR (A,S)","66F6",
"ROR (B,X)","6695",
"ROR (B,Y)","66B5",
"ROR (B,U)","66D5",
"ROR (B,S)","66F5",
"ROR (D,X)","669B",
"ROR (D,Y)","66BB",
"ROR (D,U)","66DB",
"ROR (D,S)","66FB",
"ROR (,X++)","6691",
"ROR (,Y++)","66B1",
"ROR (,U++)","66D1",
"ROR (,S++)","66F1",
"ROR (,--X)","6693",
"ROR (,--Y)","66B3",
"ROR (,--U)","66D3",
"ROR (,--S)","66F3",
"ROR (%g,X)","6698s",
"ROR (%g,Y)","66B8s",
"ROR (%g,U)","66D8s",
"ROR (%g,S)","66F8s",
"ROR (%h,X)","6699H",
"ROR (%h,Y)","66B9H",
"ROR (%h,U)","66D9H",
"ROR (%h,S)","66F9H",
"ROR (%g,PCR)","669Cs",
"ROR (%h,PCR)","669DH",
"ROR (%h)","669FH",
"ROR %f,X","66f00",
"ROR %f,Y","66f20",
"ROR %f,U","66f40",
"ROR %f,S","66f60",
"ROR %g,X","6688s",
"ROR %g,Y","66A8s",
"ROR %g,U","66C8s",
"ROR %g,S","66E8s",
"ROR %h,X","6689H",
"ROR %h,Y","66A9H",
"ROR %h,U","66C9H",
"ROR %h,S","66E9H",
"ROR %g,PCR","668Cs",
"ROR %h,PCR","668DH",
"ROR %b","06b",
"ROR %h","76H",
"RTI","3B",
"RTS","39",
"SBCA #%b","82b",
"SBCA,X","A284",
"SBCA,Y","A2A4",
"SBCA,U","A2C4",
"SBCA,S","A2E4",
"SBCA A,X","A286",
"SBCA A,Y","A2A6",
"SBCA A,U","A2C6",
"SBCA A,S","A2E6",
"SBCA B,X","A285",
"SBCA B,Y","A2A5",
"SBCA B,U","A2C5",
"SBCA B,S","A2E5",
"SBCA D,X","A28B",
"SBCA D,Y","A2AB",
"SBCA D,U","A2CB",
"SBCA D,S","A2EB",
"SBCA,X+","A280",
"SBCA,Y+","A2A0",
"SBCA,U+","A2C0",
"SBCA,S+","A2E0",
"SBCA,X++","A281",
"SBCA,Y++","A2A1",
"SBCA,U++","A2C1",
"SBCA,S++","A2E1",
"SBCA,-X","A282",
"SBCA,-Y","A2A2",
"SBCA,-U","A2C2",
"SBCA,-S","A2E2",
"SBCA,--X","A283",
"SBCA,--Y","A2A3",
"SBCA,--U","A2C3",
"SBCA,--S","A2E3",
"SBCA (,X)","A294",
"SBCA (,Y)","A2B4",
"SBCA (,U)","A2D4",
"SBCA (,S)","A2F4",
"SBCA (A,X)","A296",
"SBCA (A,Y)","A2B6",
"SBCA (A,U)","A2D6",
"SBCA (A,S)","A2F6",
"SBCA (B,X)","A295",
"SBCA (B,Y)","A2B5",
"SBCA (B,U)","A2D5",
"SBCA (B,S)","A2F5",
"SBCA (D,X)","A29B",
"SBCA (D,Y)","A2BB",
"SBCA (D,U)","A2DB",
"SBCA (D,S)","A2FB",
"SBCA (,X++)","A291",
"SBCA (,Y++)","A2B1",
"SBCA (,U++)","A2D1",
"SBCA (,S++)","A2F1",
"SBCA (,--X)","A293",
"SBCA (,--Y)","A2B3",
"SBCA (,--U)","A2D3",
"SBCA (,--S)","A2F3",
"SBCA (%g,X)","A298s",
"SBCA (%g,Y)","A2B8s",
"SBCA (%g,U)","A2D8s",
"SBCA (%g,S)","A2F8s",
"SBCA (%h,X)","A299H",
"SBCA (%h,Y)","A2B9H",
"SBCA (%h,U)","A2D9H",
"SBCA (%h,S)","A2F9H",
"SBCA (%g,PCR)","A29Cs",
"SBCA (%h,PCR)","A29DH",
"SBCA (%h)","A29FH",
"SBCA %f,X","A2f00",
"SBCA %f,Y","A2f20",
"SBCA %f,U","A2f40",
"SBCA %f,S","A2f60",
"SBCA %g,X","A288s",
"SBCA %g,Y","A2A8s",
"SBCA %g,U","A2C8s",
"SBCA %g,S","A2E8s",
"SBCA %h,X","A289H",
"SBCA %h,Y","A2A9H",
"SBCA %h,U","A2C9H",
"SBCA %h,S","A2E9H",
"SBCA %g,PCR","A28Cs",
"SBCA %h,PCR","A28DH",
"SBCA %b","92b",
"SBCA %h","B2H",
"SBCB #%b","C2b",
"SBCB,X","E284",
"SBCB,Y","E2A4",
"SBCB,U","E2C4",
"SBCB,S","E2E4",
"SBCB A,X","E286",
"SBCB A,Y","E2A6",
"SBCB A,U","E2C6",
"SBCB A,S","E2E6",
"SBCB B,X","E285",
"SBCB B,Y","E2A5",
"SBCB B,U","E2C5",
"SBCB B,S","E2E5",
"SBCB D,X","E28B",
"SBCB D,Y","E2AB",
"SBCB D,U","E2CB",
"SBCB D,S","E2EB",
"SBCB,X+","E280",
"SBCB,Y+","E2A0",
"SBCB,U+","E2C0",
"SBCB,S+","E2E0",
"SBCB,X++","E281",
"SBCB,Y++","E2A1",
"SBCB,U++","E2C1",
"SBCB,S++","E2E1",
"SBCB,-X","E282",
"SBCB,-Y","E2A2",
"SBCB,-U","E2C2",
"SBCB,-S","E2E2",
"SBCB,--X","E283",
"SBCB,--Y","E2A3",
"SBCB,--U","E2C3",
"SBCB,--S","E2E3",
"SBCB (,X)","E294",
"SBCB (,Y)","E2B4",
"SBCB (,U)","E2D4",
"SBCB (,S)","E2F4",
"SBCB (A,X)","E296",
"SBCB (A,Y)","E2B6",
"SBCB (A,U)","E2D6",
"SBCB (A,S)","E2F6",
"SBCB (B,X)","E295",
"SBCB (B,Y)","E2B5",
"SBCB (B,U)","E2D5",
"SBCB (B,S)","E2F5",
"SBCB (D,X)","E29B",
"SBCB (D,Y)","E2BB",
"SBCB (D,U)","E2DB",
"SBCB (D,S)","E2FB",
"SBCB (,X++)","E291",
"SBCB (,Y++)","E2B1",
"SBCB (,U++)","E2D1",
"SBCB (,S++)","E2F1",
"SBCB (,--X)","E293",
"SBCB (,--Y)","E2B3",
"SBCB (,--U)","E2D3",
"SBCB (,--S)","E2F3",
"SBCB (%g,X)","E298s",
"SBCB (%g,Y)","E2B8s",
"SBCB (%g,U)","E2D8s",
"SBCB (%g,S)","E2F8s",
"SBCB (%h,X)","E299H",
"SBCB (%h,Y)","E2B9H",
"SBCB (%h,U)","E2D9H",
"SBCB (%h,S)","E2F9H",
"SBCB (%g,PCR)","E29Cs",
"SBCB (%h,PCR)","E29DH",
"SBCB (%h)","E29FH",
"SBCB %f,X","E2f00",
"SBCB %f,Y","E2f20",
"SBCB %f,U","E2f40",
"SBCB %f,S","E2f60",
"SBCB %g,X","E288s",
"SBCB %g,Y","E2A8s",
"SBCB %g,U","E2C8s",
"SBCB %g,S","E2E8s",
"SBCB %h,X","E289H",
"SBCB %h,Y","E2A9H",
"SBCB %h,U","E2C9H",
"SBCB %h,S","E2E9H",
"SBCB %g,PCR","E28Cs",
"SBCB %h,PCR","E28DH",
"SBCB %b","D2b",
"SBCB %h","F2H",
"SEX","1D",
"STA,X","A784",
"STA,Y","A7A4",
"STA,U","A7C4",
"STA,S","A7E4",
"STA A,X","A786",
"STA A,Y","A7A6",
"STA A,U","A7C6",
"STA A,S","A7E6",
"STA B,X","A785",
"STA B,Y","A7A5",
"STA B,U","A7C5",
"STA B,S","A7E5",
"STA D,X","A78B",
"STA D,Y","A7AB",
"STA D,U","A7CB",
"STA D,S","A7EB",
"STA,X+","A780",
"STA,Y+","A7A0",
"STA,U+","A7C0",
"STA,S+","A7E0",
"STA,X++","A781",
"STA,Y++","A7A1",
"STA,U++","A7C1",
"STA,S++","A7E1",
"STA,-X","A782",
"STA,-Y","A7A2",
"STA,-U","A7C2",
"STA,-S","A7E2",
"STA,--X","A783",
"STA,--Y","A7A3",
"STA,--U","A7C3",
"STA,--S","A7E3",
"STA (,X)","A794",
"STA (,Y)","A7B4",
"STA (,U)","A7D4",
"STA (,S)","A7F4",
"STA (A,X)","A796",
"STA (A,Y)","A7B6",
"STA (A,U)","A7D6",
"STA (A,S)","A7F6",
"STA (B,X)","A795",
"STA (B,Y)","A7B5",
"STA (B,U)","A7D5",
"STA (B,S)","A7F5",
"STA (D,X)","A79B",
"STA (D,Y)","A7BB",
"STA (D,U)","A7DB",
"STA (D,S)","A7FB",
"STA (,X++)","A791",
"STA (,Y++)","A7B1",
"STA (,U++)","A7D1",
"STA (,S++)","A7F1",
"STA (,--X)","A793",
"STA (,--Y)","A7B3",
"STA (,--U)","A7D3",
"STA (,--S)","A7F3",
"STA (%g,X)","A798s",
"STA (%g,Y)","A7B8s",
"STA (%g,U)","A7D8s",
"STA (%g,S)","A7F8s",
"STA (%h,X)","A799H",
"STA (%h,Y)","A7B9H",
"STA (%h,U)","A7D9H",
"STA (%h,S)","A7F9H",
"STA (%g,PCR)","A79Cs",
"STA (%h,PCR)","A79DH",
"STA (%h)","A79FH",
"STA %f,X","A7f00",
"STA %f,Y","A7f20",
"STA %f,U","A7f40",
"STA %f,S","A7f60",
"STA %g,X","A788s",
"STA %g,Y","A7A8s",
"STA %g,U","A7C8s",
"STA %g,S","A7E8s",
"STA %h,X","A789H",
"STA %h,Y","A7A9H",
"STA %h,U","A7C9H",
"STA %h,S","A7E9H",
"STA %g,PCR","A78Cs",
"STA %h,PCR","A78DH",
"STA %b","97b",
"STA %h","B7H",
"STB,X","E784",
"STB,Y","E7A4",
"STB,U","E7C4",
"STB,S","E7E4",
"STB A,X","E786",
"STB A,Y","E7A6",
"STB A,U","E7C6",
"STB A,S","E7E6",
"STB B,X","E785",
"STB B,Y","E7A5",
"STB B,U","E7C5",
"STB B,S","E7E5",
"STB D,X","E78B",
"STB D,Y","E7AB",
"STB D,U","E7CB",
"STB D,S","E7EB",
"STB,X+","E780",
"STB,Y+","E7A0",
"STB,U+","E7C0",
"STB,S+","E7E0",
"STB,X++","E781",
"STB,Y++","E7A1",
"STB,U++","E7C1",
"STB,S++","E7E1",
"STB,-X","E782",
"STB,-Y","E7A2",
"STB,-U","E7C2",
"STB,-S","E7E2",
"STB,--X","E783",
"STB,--Y","E7A3",
"STB,--U","E7C3",
"STB,--S","E7E3",
"STB (,X)","E794",
"STB (,Y)","E7B4",
"STB (,U)","E7D4",
"STB (,S)","E7F4",
"STB (A,X)","E796",
"STB (A,Y)","E7B6",
"STB (A,U)","E7D6",
"STB (A,S)","E7F6",
"STB (B,X)","E795",
"STB (B,Y)","E7B5",
"STB (B,U)","E7D5",
"STB (B,S)","E7F5",
"STB (D,X)","E79B",
"STB (D,Y)","E7BB",
"STB (D,U)","E7DB",
"STB (D,S)","E7FB",
"STB (,X++)","E791",
"STB (,Y++)","E7B1",
"STB (,U++)","E7D1",
"STB (,S++)","E7F1",
"STB (,--X)","E793",
"STB (,--Y)","E7B3",
"STB (,--U)","E7D3",
"STB (,--S)","E7F3",
"STB (%g,X)","E798s",
"STB (%g,Y)","E7B8s",
"STB (%g,U)","E7D8s",
"STB (%g,S)","E7F8s",
"STB (%h,X)","E799H",
"STB (%h,Y)","E7B9H",
"STB (%h,U)","E7D9H",
"STB (%h,S)","E7F9H",
"STB (%g,PCR)","E79Cs",
"STB (%h,PCR)","E79DH",
"STB (%h)","E79FH",
"STB %f,X","E7f00",
"STB %f,Y","E7f20",
"STB %f,U","E7f40",
"STB %f,S","E7f60",
"STB %g,X","E788s",
"STB %g,Y","E7A8s",
"STB %g,U","E7C8s",
"STB %g,S","E7E8s",
"STB %h,X","E789H",
"STB %h,Y","E7A9H",
"STB %h,U","E7C9H",
"STB %h,S","E7E9H",
"STB %g,PCR","E78Cs",
"STB %h,PCR","E78DH",
"STB %b","D7b",
"STB %h","F7H",
"STD,X","ED84",
"STD,Y","EDA4",
"STD,U","EDC4",
"STD,S","EDE4",
"STD A,X","ED86",
"STD A,Y","EDA6",
"STD A,U","EDC6",
"STD A,S","EDE6",
"STD B,X","ED85",
"STD B,Y","EDA5",
"STD B,U","EDC5",
"STD B,S","EDE5",
"STD D,X","ED8B",
"STD D,Y","EDAB",
"STD D,U","EDCB",
"STD D,S","EDEB",
"STD,X+","ED80",
"STD,Y+","EDA0",
"STD,U+","EDC0",
"STD,S+","EDE0",
"STD,X++","ED81",
"STD,Y++","EDA1",
"STD,U++","EDC1",
"STD,S++","EDE1",
"STD,-X","ED82",
"STD,-Y","EDA2",
"STD,-U","EDC2",
"STD,-S","EDE2",
"STD,--X","ED83",
"STD,--Y","EDA3",
"STD,--U","EDC3",
"STD,--S","EDE3",
"STD (,X)","ED94",
"STD (,Y)","EDB4",
"STD (,U)","EDD4",
"STD (,S)","EDF4",
"STD (A,X)","ED96",
"STD (A,Y)","EDB6",
"STD (A,U)","EDD6",
"STD (A,S)","EDF6",
"STD (B,X)","ED95",
"STD (B,Y)","EDB5",
"STD (B,U)","EDD5",
"STD (B,S)","EDF5",
"STD (D,X)","ED9B",
"STD (D,Y)","EDBB",
"STD (D,U)","EDDB",
"STD (D,S)","EDFB",
"STD (,X++)","ED91",
"STD (,Y++)","EDB1",
"STD (,U++)","EDD1",
"STD (,S++)","EDF1",
"STD (,--X)","ED93",
"STD (,--Y)","EDB3",
"STD (,--U)","EDD3",
"STD (,--S)","EDF3",
"STD (%g,X)","ED98s",
"STD (%g,Y)","EDB8s",
"STD (%g,U)","EDD8s",
"STD (%g,S)","EDF8s",
"STD (%h,X)","ED99H",
"STD (%h,Y)","EDB9H",
"STD (%h,U)","EDD9H",
"STD (%h,S)","EDF9H",
"STD (%g,PCR)","ED9Cs",
"STD (%h,PCR)","ED9DH",
"STD (%h)","ED9FH",
"STD %f,X","EDf00",
"STD %f,Y","EDf20",
"STD %f,U","EDf40",
"STD %f,S","EDf60",
"STD %g,X","ED88s",
"STD %g,Y","EDA8s",
"STD %g,U","EDC8s",
"STD %g,S","EDE8s",
"STD %h,X","ED89H",
"STD %h,Y","EDA9H",
"STD %h,U","EDC9H",
"STD %h,S","EDE9H",
"STD %g,PCR","ED8Cs",
"STD %h,PCR","ED8DH",
"STD %b","DDb",
"STD %h","FDH",
"STS,X","10EF84",
"STS,Y","10EFA4",
"STS,U","10EFC4",
"STS,S","10EFE4",
"STS A,X","10EF86",
"STS A,Y","10EFA6",
"STS A,U","10EFC6",
"STS A,S","10EFE6",
"STS B,X","10EF85",
"STS B,Y","10EFA5",
"STS B,U","10EFC5",
"STS B,S","10EFE5",
"STS D,X","10EF8B",
"STS D,Y","10EFAB",
"STS D,U","10EFCB",
"STS D,S","10EFEB",
"STS,X+","10EF80",
"STS,Y+","10EFA0",
"STS,U+","10EFC0",
"STS,S+","10EFE0",
"STS,X++","10EF81",
"STS,Y++","10EFA1",
"STS,U++","10EFC1",
"STS,S++","10EFE1",
"STS,-X","10EF82",
"STS,-Y","10EFA2",
"STS,-U","10EFC2",
"STS,-S","10EFE2",
"STS,--X","10EF83",
"STS,--Y","10EFA3",
"STS,--U","10EFC3",
"STS,--S","10EFE3",
"STS (,X)","10EF94",
"STS (,Y)","10EFB4",
"STS (,U)","10EFD4",
"STS (,S)","10EFF4",
"STS (A,X)","10EF96",
"STS (A,Y)","10EFB6",
"STS (A,U)","10EFD6",
"STS (A,S)","10EFF6",
"STS (B,X)","10EF95",
"STS (B,Y)","10EFB5",
"STS (B,U)","10EFD5",
"STS (B,S)","10EFF5",
"STS (D,X)","10EF9B",
"STS (D,Y)","10EFBB",
"STS (D,U)","10EFDB",
"STS (D,S)","10EFFB",
"STS (,X++)","10EF91",
"STS (,Y++)","10EFB1",
"STS (,U++)","10EFD1",
"STS (,S++)","10EFF1",
"STS (,--X)","10EF93",
"STS (,--Y)","10EFB3",
"STS (,--U)","10EFD3",
"STS (,--S)","10EFF3",
"STS (%g,X)","10EF98s",
"STS (%g,Y)","10EFB8s",
"STS (%g,U)","10EFD8s",
"STS (%g,S)","10EFF8s",
"STS (%h,X)","10EF99H",
"STS (%h,Y)","10EFB9H",
"STS (%h,U)","10EFD9H",
"STS (%h,S)","10EFF9H",
"STS (%g,PCR)","10EF9Cs",
"STS (%h,PCR)","10EF9DH",
"STS (%h)","10EF9FH",
"STS %f,X","10EFf00",
"STS %f,Y","10EFf20",
"STS %f,U","10EFf40",
"STS %f,S","10EFf60",
"STS %g,X","10EF88s",
"STS %g,Y","10EFA8s",
"STS %g,U","10EFC8s",
"STS %g,S","10EFE8s",
"STS %h,X","10EF89H",
"STS %h,Y","10EFA9H",
"STS %h,U","10EFC9H",
"STS %h,S","10EFE9H",
"STS %g,PCR","10EF8Cs",
"STS %h,PCR","10EF8DH",
"STS %b","10DFb",
"STS %h","10FFH",
"STU,X","EF84",
"STU,Y","EFA4",
"STU,U","EFC4",
"STU,S","EFE4",
"STU A,X","EF86",
"STU A,Y","EFA6",
"STU A,U","EFC6",
"STU A,S","EFE6",
"STU B,X","EF85",
"STU B,Y","EFA5",
"STU B,U","EFC5",
"STU B,S","EFE5",
"STU D,X","EF8B",
"STU D,Y","EFAB",
"STU D,U","EFCB",
"STU D,S","EFEB",
"STU,X+","EF80",
"STU,Y+","EFA0",
"STU,U+","EFC0",
"STU,S+","EFE0",
"STU,X++","EF81",
"STU,Y++","EFA1",
"STU,U++","EFC1",
"STU,S++","EFE1",
"STU,-X","EF82",
"STU,-Y","EFA2",
"STU,-U","EFC2",
"STU,-S","EFE2",
"STU,--X","EF83",
"STU,--Y","EFA3",
"STU,--U","EFC3",
"STU,--S","EFE3",
"STU (,X)","EF94",
"STU (,Y)","EFB4",
"STU (,U)","EFD4",
"STU (,S)","EFF4",
"STU (A,X)","EF96",
"STU (A,Y)","EFB6",
"STU (A,U)","EFD6",
"STU (A,S)","EFF6",
"STU (B,X)","EF95",
"STU (B,Y)","EFB5",
"STU (B,U)","EFD5",
"STU (B,S)","EFF5",
"STU (D,X)","EF9B",
"STU (D,Y)","EFBB",
"STU (D,U)","EFDB",
"STU (D,S)","EFFB",
"STU (,X++)","EF91",
"STU (,Y++)","EFB1",
"STU (,U++)","EFD1",
"STU (,S++)","EFF1",
"STU (,--X)","EF93",
"STU (,--Y)","EFB3",
"STU (,--U)","EFD3",
"STU (,--S)","EFF3",
"STU (%g,X)","EF98s",
"STU (%g,Y)","EFB8s",
"STU (%g,U)","EFD8s",
"STU (%g,S)","EFF8s",
"STU (%h,X)","EF99H",
"STU (%h,Y)","EFB9H",
"STU (%h,U)","EFD9H",
"STU (%h,S)","EFF9H",
"STU (%g,PCR)","EF9Cs",
"STU (%h,PCR)","EF9DH",
"STU (%h)","EF9FH",
"STU %f,X","EFf00",
"STU %f,Y","EFf20",
"STU %f,U","EFf40",
"STU %f,S","EFf60",
"STU %g,X","EF88s",
"STU %g,Y","EFA8s",
"STU %g,U","EFC8s",
"STU %g,S","EFE8s",
"STU %h,X","EF89H",
"STU %h,Y","EFA9H",
"STU %h,U","EFC9H",
"STU %h,S","EFE9H",
"STU %g,PCR","EF8Cs",
"STU %h,PCR","EF8DH",
"STU %b","DFb",
"STU %h","FFH",
"STX,X","AF84",
"STX,Y","AFA4",
"STX,U","AFC4",
"STX,S","AFE4",
"STX A,X","AF86",
"STX A,Y","AFA6",
"STX A,U","AFC6",
"STX A,S","AFE6",
"STX B,X","AF85",
"STX B,Y","AFA5",
"STX B,U","AFC5",
"STX B,S","AFE5",
"STX D,X","AF8B",
"STX D,Y","AFAB",
"STX D,U","AFCB",
"STX D,S","AFEB",
"STX,X+","AF80",
"STX,Y+","AFA0",
"STX,U+","AFC0",
"STX,S+","AFE0",
"STX,X++","AF81",
"STX,Y++","AFA1",
"STX,U++","AFC1",
"STX,S++","AFE1",
"STX,-X","AF82",
"STX,-Y","AFA2",
"STX,-U","AFC2",
"STX,-S","AFE2",
"STX,--X","AF83",
"STX,--Y","AFA3",
"STX,--U","AFC3",
"STX,--S","AFE3",
"STX (,X)","AF94",
"STX (,Y)","AFB4",
"STX (,U)","AFD4",
"STX (,S)","AFF4",
"STX (A,X)","AF96",
"STX (A,Y)","AFB6",
"STX (A,U)","AFD6",
"STX (A,S)","AFF6",
"STX (B,X)","AF95",
"STX (B,Y)","AFB5",
"STX (B,U)","AFD5",
"STX (B,S)","AFF5",
"STX (D,X)","AF9B",
"STX (D,Y)","AFBB",
"STX (D,U)","AFDB",
"STX (D,S)","AFFB",
"STX (,X++)","AF91",
"STX (,Y++)","AFB1",
"STX (,U++)","AFD1",
"STX (,S++)","AFF1",
"STX (,--X)","AF93",
"STX (,--Y)","AFB3",
"STX (,--U)","AFD3",
"STX (,--S)","AFF3",
"STX (%g,X)","AF98s",
"STX (%g,Y)","AFB8s",
"STX (%g,U)","AFD8s",
"STX (%g,S)","AFF8s",
"STX (%h,X)","AF99H",
"STX (%h,Y)","AFB9H",
"STX (%h,U)","AFD9H",
"STX (%h,S)","AFF9H",
"STX (%g,PCR)","AF9Cs",
"STX (%h,PCR)","AF9DH",
"STX (%h)","AF9FH",
"STX %f,X","AFf00",
"STX %f,Y","AFf20",
"STX %f,U","AFf40",
"STX %f,S","AFf60",
"STX %g,X","AF88s",
"STX %g,Y","AFA8s",
"STX %g,U","AFC8s",
"STX %g,S","AFE8s",
"STX %h,X","AF89H",
"STX %h,Y","AFA9H",
"STX %h,U","AFC9H",
"STX %h,S","AFE9H",
"STX %g,PCR","AF8Cs",
"STX %h,PCR","AF8DH",
"STX %b","9Fb",
"STX %h","BFH",
"STY,X","10AF84",
"STY,Y","10AFA4",
"STY,U","10AFC4",
"STY,S","10AFE4",
"STY A,X","10AF86",
"STY A,Y","10AFA6",
"STY A,U","10AFC6",
"STY A,S","10AFE6",
"STY B,X","10AF85",
"STY B,Y","10AFA5",
"STY B,U","10AFC5",
"STY B,S","10AFE5",
"STY D,X","10AF8B",
"STY D,Y","10AFAB",
"STY D,U","10AFCB",
"STY D,S","10AFEB",
"STY,X+","10AF80",
"STY,Y+","10AFA0",
"STY,U+","10AFC0",
"STY,S+","10AFE0",
"STY,X++","10AF81",
"STY,Y++","10AFA1",
"STY,U++","10AFC1",
"STY,S++","10AFE1",
"STY,-X","10AF82",
"STY,-Y","10AFA2",
"STY,-U","10AFC2",
"STY,-S","10AFE2",
"STY,--X","10AF83",
"STY,--Y","10AFA3",
"STY,--U","10AFC3",
"STY,--S","10AFE3",
"STY (,X)","10AF94",
"STY (,Y)","10AFB4",
"STY (,U)","10AFD4",
"STY (,S)","10AFF4",
"STY (A,X)","10AF96",
"STY (A,Y)","10AFB6",
"STY (A,U)","10AFD6",
"STY (A,S)","10AFF6",
"STY (B,X)","10AF95",
"STY (B,Y)","10AFB5",
"STY (B,U)","10AFD5",
"STY (B,S)","10AFF5",
"STY (D,X)","10AF9B",
"STY (D,Y)","10AFBB",
"STY (D,U)","10AFDB",
"STY (D,S)","10AFFB",
"STY (,X++)","10AF91",
"STY (,Y++)","10AFB1",
"STY (,U++)","10AFD1",
"STY (,S++)","10AFF1",
"STY (,--X)","10AF93",
"STY (,--Y)","10AFB3",
"STY (,--U)","10AFD3",
"STY (,--S)","10AFF3",
"STY (%g,X)","10AF98s",
"STY (%g,Y)","10AFB8s",
"STY (%g,U)","10AFD8s",
"STY (%g,S)","10AFF8s",
"STY (%h,X)","10AF99H",
"STY (%h,Y)","10AFB9H",
"STY (%h,U)","10AFD9H",
"STY (%h,S)","10AFF9H",
"STY (%g,PCR)","10AF9Cs",
"STY (%h,PCR)","10AF9DH",
"STY (%h)","10AF9FH",
"STY %f,X","10AFf00",
"STY %f,Y","10AFf20",
"STY %f,U","10AFf40",
"STY %f,S","10AFf60",
"STY %g,X","10AF88s",
"STY %g,Y","10AFA8s",
"STY %g,U","10AFC8s",
"STY %g,S","10AFE8s",
"STY %h,X","10AF89H",
"STY %h,Y","10AFA9H",
"STY %h,U","10AFC9H",
"STY %h,S","10AFE9H",
"STY %g,PCR","10AF8Cs",
"STY %h,PCR","10AF8DH",
"STY %b","109Fb",
"STY %h","10BFH",
"SUBA #%b","80b",
"SUBA,X","A084",
"SUBA,Y","A0A4",
"SUBA,U","A0C4",
"SUBA,S","A0E4",
"SUBA A,X","A086",
"SUBA A,Y","A0A6",
"SUBA A,U","A0C6",
"SUBA A,S","A0E6",
"SUBA B,X","A085",
"SUBA B,Y","A0A5",
"SUBA B,U","A0C5",
"SUBA B,S","A0E5",
"SUBA D,X","A08B",
"SUBA D,Y","A0AB",
"SUBA D,U","A0CB",
"SUBA D,S","A0EB",
"SUBA,X+","A080",
"SUBA,Y+","A0A0",
"SUBA,U+","A0C0",
"SUBA,S+","A0E0",
"SUBA,X++","A081",
"SUBA,Y++","A0A1",
"SUBA,U++","A0C1",
"SUBA,S++","A0E1",
"SUBA,-X","A082",
"SUBA,-Y","A0A2",
"SUBA,-U","A0C2",
"SUBA,-S","A0E2",
"SUBA,--X","A083",
"SUBA,--Y","A0A3",
"SUBA,--U","A0C3",
"SUBA,--S","A0E3",
"SUBA (,X)","A094",
"SUBA (,Y)","A0B4",
"SUBA (,U)","A0D4",
"SUBA (,S)","A0F4",
"SUBA (A,X)","A096",
"SUBA (A,Y)","A0B6",
"SUBA (A,U)","A0D6",
"SUBA (A,S)","A0F6",
"SUBA (B,X)","A095",
"SUBA (B,Y)","A0B5",
"SUBA (B,U)","A0D5",
"SUBA (B,S)","A0F5",
"SUBA (D,X)","A09B",
"SUBA (D,Y)","A0BB",
"SUBA (D,U)","A0DB",
"SUBA (D,S)","A0FB",
"SUBA (,X++)","A091",
"SUBA (,Y++)","A0B1",
"SUBA (,U++)","A0D1",
"SUBA (,S++)","A0F1",
"SUBA (,--X)","A093",
"SUBA (,--Y)","A0B3",
"SUBA (,--U)","A0D3",
"SUBA (,--S)","A0F3",
"SUBA (%g,X)","A098s",
"SUBA (%g,Y)","A0B8s",
"SUBA (%g,U)","A0D8s",
"SUBA (%g,S)","A0F8s",
"SUBA (%h,X)","A099H",
"SUBA (%h,Y)","A0B9H",
"SUBA (%h,U)","A0D9H",
"SUBA (%h,S)","A0F9H",
"SUBA (%g,PCR)","A09Cs",
"SUBA (%h,PCR)","A09DH",
"SUBA (%h)","A09FH",
"SUBA %f,X","A0f00",
"SUBA %f,Y","A0f20",
"SUBA %f,U","A0f40",
"SUBA %f,S","A0f60",
"SUBA %g,X","A088s",
"SUBA %g,Y","A0A8s",
"SUBA %g,U","A0C8s",
"SUBA %g,S","A0E8s",
"SUBA %h,X","A089H",
"SUBA %h,Y","A0A9H",
"SUBA %h,U","A0C9H",
"SUBA %h,S","A0E9H",
"SUBA %g,PCR","A08Cs",
"SUBA %h,PCR","A08DH",
"SUBA %b","90b",
"SUBA %h","B0H",
"SUBB #%b","C0b",
"SUBB,X","E084",
"SUBB,Y","E0A4",
"SUBB,U","E0C4",
"SUBB,S","E0E4",
"SUBB A,X","E086",
"SUBB A,Y","E0A6",
"SUBB A,U","E0C6",
"SUBB A,S","E0E6",
"SUBB B,X","E085",
"SUBB B,Y","E0A5",
"SUBB B,U","E0C5",
"SUBB B,S","E0E5",
"SUBB D,X","E08B",
"SUBB D,Y","E0AB",
"SUBB D,U","E0CB",
"SUBB D,S","E0EB",
"SUBB,X+","E080",
"SUBB,Y+","E0A0",
"SUBB,U+","E0C0",
"SUBB,S+","E0E0",
"SUBB,X++","E081",
"SUBB,Y++","E0A1",
"SUBB,U++","E0C1",
"SUBB,S++","E0E1",
"SUBB,-X","E082",
"SUBB,-Y","E0A2",
"SUBB,-U","E0C2",
"SUBB,-S","E0E2",
"SUBB,--X","E083",
"SUBB,--Y","E0A3",
"SUBB,--U","E0C3",
"SUBB,--S","E0E3",
"SUBB (,X)","E094",
"SUBB (,Y)","E0B4",
"SUBB (,U)","E0D4",
"SUBB (,S)","E0F4",
"SUBB (A,X)","E096",
"SUBB (A,Y)","E0B6",
"SUBB (A,U)","E0D6",
"SUBB (A,S)","E0F6",
"SUBB (B,X)","E095",
"SUBB (B,Y)","E0B5",
"SUBB (B,U)","E0D5",
"SUBB (B,S)","E0F5",
"SUBB (D,X)","E09B",
"SUBB (D,Y)","E0BB",
"SUBB (D,U)","E0DB",
"SUBB (D,S)","E0FB",
"SUBB (,X++)","E091",
"SUBB (,Y++)","E0B1",
"SUBB (,U++)","E0D1",
"SUBB (,S++)","E0F1",
"SUBB (,--X)","E093",
"SUBB (,--Y)","E0B3",
"SUBB (,--U)","E0D3",
"SUBB (,--S)","E0F3",
"SUBB (%g,X)","E098s",
"SUBB (%g,Y)","E0B8s",
"SUBB (%g,U)","E0D8s",
"SUBB (%g,S)","E0F8s",
"SUBB (%h,X)","E099H",
"SUBB (%h,Y)","E0B9H",
"SUBB (%h,U)","E0D9H",
"SUBB (%h,S)","E0F9H",
"SUBB (%g,PCR)","E09Cs",
"SUBB (%h,PCR)","E09DH",
"SUBB (%h)","E09FH",
"SUBB %f,X","E0f00",
"SUBB %f,Y","E0f20",
"SUBB %f,U","E0f40",
"SUBB %f,S","E0f60",
"SUBB %g,X","E088s",
"SUBB %g,Y","E0A8s",
"SUBB %g,U","E0C8s",
"SUBB %g,S","E0E8s",
"SUBB %h,X","E089H",
"SUBB %h,Y","E0A9H",
"SUBB %h,U","E0C9H",
"SUBB %h,S","E0E9H",
"SUBB %g,PCR","E08Cs",
"SUBB %h,PCR","E08DH",
"SUBB %b","D0b",
"SUBB %h","F0H",
"SUBD #%w","83W",
"SUBD,X","A384",
"SUBD,Y","A3A4",
"SUBD,U","A3C4",
"SUBD,S","A3E4",
"SUBD A,X","A386",
"SUBD A,Y","A3A6",
"SUBD A,U","A3C6",
"SUBD A,S","A3E6",
"SUBD B,X","A385",
"SUBD B,Y","A3A5",
"SUBD B,U","A3C5",
"SUBD B,S","A3E5",
"SUBD D,X","A38B",
"SUBD D,Y","A3AB",
"SUBD D,U","A3CB",
"SUBD D,S","A3EB",
"SUBD,X+","A380",
"SUBD,Y+","A3A0",
"SUBD,U+","A3C0",
"SUBD,S+","A3E0",
"SUBD,X++","A381",
"SUBD,Y++","A3A1",
"SUBD,U++","A3C1",
"SUBD,S++","A3E1",
"SUBD,-X","A382",
"SUBD,-Y","A3A2",
"SUBD,-U","A3C2",
"SUBD,-S","A3E2",
"SUBD,--X","A383",
"SUBD,--Y","A3A3",
"SUBD,--U","A3C3",
"SUBD,--S","A3E3",
"SUBD (,X)","A394",
"SUBD (,Y)","A3B4",
"SUBD (,U)","A3D4",
"SUBD (,S)","A3F4",
"SUBD (A,X)","A396",
"SUBD (A,Y)","A3B6",
"SUBD (A,U)","A3D6",
"SUBD (A,S)","A3F6",
"SUBD (B,X)","A395",
"SUBD (B,Y)","A3B5",
"SUBD (B,U)","A3D5",
"SUBD (B,S)","A3F5",
"SUBD (D,X)","A39B",
"SUBD (D,Y)","A3BB",
"SUBD (D,U)","A3DB",
"SUBD (D,S)","A3FB",
"SUBD (,X++)","A391",
"SUBD (,Y++)","A3B1",
"SUBD (,U++)","A3D1",
"SUBD (,S++)","A3F1",
"SUBD (,--X)","A393",
"SUBD (,--Y)","A3B3",
"SUBD (,--U)","A3D3",
"SUBD (,--S)","A3F3",
"SUBD (%g,X)","A398s",
"SUBD (%g,Y)","A3B8s",
"SUBD (%g,U)","A3D8s",
"SUBD (%g,S)","A3F8s",
"SUBD (%h,X)","A399H",
"SUBD (%h,Y)","A3B9H",
"SUBD (%h,U)","A3D9H",
"SUBD (%h,S)","A3F9H",
"SUBD (%g,PCR)","A39Cs",
"SUBD (%h,PCR)","A39DH",
"SUBD (%h)","A39FH",
"SUBD %f,X","A3f00",
"SUBD %f,Y","A3f20",
"SUBD %f,U","A3f40",
"SUBD %f,S","A3f60",
"SUBD %g,X","A388s",
"SUBD %g,Y","A3A8s",
"SUBD %g,U","A3C8s",
"SUBD %g,S","A3E8s",
"SUBD %h,X","A389H",
"SUBD %h,Y","A3A9H",
"SUBD %h,U","A3C9H",
"SUBD %h,S","A3E9H",
"SUBD %g,PCR","A38Cs",
"SUBD %h,PCR","A38DH",
"SUBD %b","93b",
"SUBD %h","B3H",
"SWI1","3F",
"SWI2","103F",
"SWI3","113F",
"SWI","3F",
"SYNC","13",
"TSTA","4D",
"TSTB","5D",
"TST,X","6D84",
"TST,Y","6DA4",
"TST,U","6DC4",
"TST,S","6DE4",
"TST A,X","6D86",
"TST A,Y","6DA6",
"TST A,U","6DC6",
"TST A,S","6DE6",
"TST B,X","6D85",
"TST B,Y","6DA5",
"TST B,U","6DC5",
"TST B,S","6DE5",
"TST D,X","6D8B",
"TST D,Y","6DAB",
"TST D,U","6DCB",
"TST D,S","6DEB",
"TST,X+","6D80",
"TST,Y+","6DA0",
"TST,U+","6DC0",
"TST,S+","6DE0",
"TST,X++","6D81",
"TST,Y++","6DA1",
"TST,U++","6DC1",
"TST,S++","6DE1",
"TST,-X","6D82",
"TST,-Y","6DA2",
"TST,-U","6DC2",
"TST,-S","6DE2",
"TST,--X","6D83",
"TST,--Y","6DA3",
"TST,--U","6DC3",
"TST,--S","6DE3",
"TST (,X)","6D94",
"TST (,Y)","6DB4",
"TST (,U)","6DD4",
"TST (,S)","6DF4",
"TST (A,X)","6D96",
"TST (A,Y)","6DB6",
"TST (A,U)","6DD6",
"TST (A,S)","6DF6",
"TST (B,X)","6D95",
"TST (B,Y)","6DB5",
"TST (B,U)","6DD5",
"TST (B,S)","6DF5",
"TST (D,X)","6D9B",
"TST (D,Y)","6DBB",
"TST (D,U)","6DDB",
"TST (D,S)","6DFB",
"TST (,X++)","6D91",
"TST (,Y++)","6DB1",
"TST (,U++)","6DD1",
"TST (,S++)","6DF1",
"TST (,--X)","6D93",
"TST (,--Y)","6DB3",
"TST (,--U)","6DD3",
"TST (,--S)","6DF3",
"TST (%g,X)","6D98s",
"TST (%g,Y)","6DB8s",
"TST (%g,U)","6DD8s",
"TST (%g,S)","6DF8s",
"TST (%h,X)","6D99H",
"TST (%h,Y)","6DB9H",
"TST (%h,U)","6DD9H",
"TST (%h,S)","6DF9H",
"TST (%g,PCR)","6D9Cs",
"TST (%h,PCR)","6D9DH",
"TST (%h)","6D9FH",
"TST %f,X","6Df00",
"TST %f,Y","6Df20",
"TST %f,U","6Df40",
"TST %f,S","6Df60",
"TST %g,X","6D88s",
"TST %g,Y","6DA8s",
"TST %g,U","6DC8s",
"TST %g,S","6DE8s",
"TST %h,X","6D89H",
"TST %h,Y","6DA9H",
"TST %h,U","6DC9H",
"TST %h,S","6DE9H",
"TST %g,PCR","6D8Cs",
"TST %h,PCR","6D8DH",
"TST %b","0Db",
"TST %h","7DH",
0};
static const char *const RELI[] = {
"BCC %r","24r",
"BCS %r","25r",
"BEQ %r","27r",
"BGE %r","2Cr",
"BGT %r","2Er",
"BHI %r","22r",
"BHS %r","24r",
"BLE %r","2Fr",
"BLO %r","25r",
"BLS %r","23r",
"BLT %r","2Dr",
"BMI %r","2Br",
"BNE %r","26r",
"BPL %r","2Ar",
"BRA %r","20r",
"BRN %r","21r",
"BSR %r","8Dr",
"BVC %r","28r",
"BVS %r","29r",
"LBCC %R","1024R",
"LBCS %R","1025R",
"LBEQ %R","1027R",
"LBGE %R","102CR",
"LBGT %R","102ER",
"LBHI %R","1022R",
"LBHS %R","1024R",
"LBLE %R","102FR",
"LBLO %R","1025R",
"LBLS %R","1023R",
"LBLT %R","102DR",
"LBMI %R","102BR",
"LBNE %R","1026R",
"LBPL %R","102AR",
"LBRA %R","16R",
"LBRN %R","1021R",
"LBSR %R","17R",
"LBVC %R","1028R",
"LBVS %R","1029R",
0};
