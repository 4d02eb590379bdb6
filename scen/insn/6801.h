/* 6801: instruction text and encoding */
static const char *const INSN[] = {
"ABA","1B",
"ABX","3A",
"ADCA #%b","89b",
"ADCA %b,X","A9b",
"ADCA %b","99b",
"ADCA %h","B9H",
"ADCB #%b","C9b",
"ADCB %b,X","E9b",
"ADCB %b","D9b",
"ADCB %h","F9H",
"ADCA.B #%b","89b",
"ADCA.B %b,X","A9b",
"ADCA.B %b","99b",
"ADCA.W %w","B9W",
"ADCB.B #%b","C9b",
"ADCB.B %b,X","E9b",
"ADCB.B %b","D9b",
"ADCB.W %w","F9W",
"ADDA #%b","8Bb",
"ADDA %b,X","ABb",
"ADDA %b","9Bb",
"ADDA %h","BBH",
"ADDB #%b","CBb",
"ADDB %b,X","EBb",
"ADDB %b","DBb",
"ADDB %h","FBH",
"ADDD #%w","C3W",
"ADDD %b,X","E3b",
"ADDD %b","D3b",
"ADDD %h","F3H",
"ADDA.B #%b","8Bb",
"ADDA.B %b,X","ABb",
"ADDA.B %b","9Bb",
"ADDA.W %w","BBW",
"ADDB.B #%b","CBb",
"ADDB.B %b,X","EBb",
"ADDB.B %b","DBb",
"ADDB.W %w","FBW",
"ADDD.W #%w","C3W",
"ADDD.B %b,X","E3b",
"ADDD.B %b","D3b",
"ADDD.W %w","F3W",
"ANDA #%b","84b",
"ANDA %b,X","A4b",
"ANDA %b","94b",
"ANDA %h","B4H",
"ANDB #%b","C4b",
"ANDB %b,X","E4b",
"ANDB %b","D4b",
"ANDB %h","F4H",
"ANDA.B #%b","84b",
"ANDA.B %b,X","A4b",
"ANDA.B %b","94b",
"ANDA.W %w","B4W",
"ANDB.B #%b","C4b",
"ANDB.B %b,X","E4b",
"ANDB.B %b","D4b",
"ANDB.W %w","F4W",
"ASLA","48",
"ASLB","58",
"ASLD","05",
"ASL %b,X","68b",
"ASL %w","78W",
"ASL.B %b,X","68b",
"ASL.W %w","78W",
"ASRA","47",
"ASRB","57",
"ASR %b,X","67b",
"ASR %w","77W",
"ASR.B %b,X","67b",
"ASR.W %w","77W",
"BITA #%b","85b",
"BITA %b,X","A5b",
"BITA %b","95b",
"BITA %h","B5H",
"BITB #%b","C5b",
"BITB %b,X","E5b",
"BITB %b","D5b",
"BITB %h","F5H",
"BITA.B #%b","85b",
"BITA.B %b,X","A5b",
"BITA.B %b","95b",
"BITA.W %w","B5W",
"BITB.B #%b","C5b",
"BITB.B %b,X","E5b",
"BITB.B %b","D5b",
"BITB.W %w","F5W",
"CBA","11",
"CLC","0C",
"CLI","0E",
"CLRA","4F",
"CLRB","5F",
"CLR %b,X","6Fb",
"CLR %w","7FW",
"CLR.B %b,X","6Fb",
"CLR.W %w","7FW",
"CLV","0A",
"CMPA #%b","81b",
"CMPA %b,X","A1b",
"CMPA %b","91b",
"CMPA %h","B1H",
"CMPB #%b","C1b",
"CMPB %b,X","E1b",
"CMPB %b","D1b",
"CMPB %h","F1H",
"CMPA.B #%b","81b",
"CMPA.B %b,X","A1b",
"CMPA.B %b","91b",
"CMPA.W %w","B1W",
"CMPB.B #%b","C1b",
"CMPB.B %b,X","E1b",
"CMPB.B %b","D1b",
"CMPB.W %w","F1W",
"COMA","43",
"COMB","53",
"COM %b,X","63b",
"COM %w","73W",
"COM.B %b,X","63b",
"COM.W %w","73W",
"CPX #%w","8CW",
"CPX %b,X","ACb",
"CPX %b","9Cb",
"CPX %h","BCH",
"CPX.W #%w","8CW",
"CPX.B %b,X","ACb",
"CPX.B %b","9Cb",
"CPX.W %w","BCW",
"DAA","19",
"DECA","4A",
"DECB","5A",
"DEC %b,X","6Ab",
"DEC %w","7AW",
"DEC.B %b,X","6Ab",
"DEC.W %w","7AW",
"DES","34",
"DEX","09",
"EORA #%b","88b",
"EORA %b,X","A8b",
"EORA %b","98b",
"EORA %h","B8H",
"EORB #%b","C8b",
"EORB %b,X","E8b",
"EORB %b","D8b",
"EORB %h","F8H",
"EORA.B #%b","88b",
"EORA.B %b,X","A8b",
"EORA.B %b","98b",
"EORA.W %w","B8W",
"EORB.B #%b","C8b",
"EORB.B %b,X","E8b",
"EORB.B %b","D8b",
"EORB.W %w","F8W",
"INCA","4C",
"INCB","5C",
"INC %b,X","6Cb",
"INC %w","7CW",
"INC.B %b,X","6Cb",
"INC.W %w","7CW",
"INS","31",
"INX","08",
"JMP %b,X","6Eb",
"JMP %w","7EW",
"JSR %b,X","ADb",
"JSR %b","9Db",
"JSR %h","BDH",
"JMP.B %b,X","6Eb",
"JMP.W %w","7EW",
"JSR.B %b,X","ADb",
"JSR.B %b","9Db",
"JSR.W %w","BDW",
"LDAA #%b","86b",
"LDAA %b,X","A6b",
"LDAA %b","96b",
"LDAA %h","B6H",
"LDAB #%b","C6b",
"LDAB %b,X","E6b",
"LDAB %b","D6b",
"LDAB %h","F6H",
"LDD #%w","CCW",
"LDD %b,X","ECb",
"LDD %b","DCb",
"LDD %h","FCH",
"LDAA.B #%b","86b",
"LDAA.B %b,X","A6b",
"LDAA.B %b","96b",
"LDAA.W %w","B6W",
"LDAB.B #%b","C6b",
"LDAB.B %b,X","E6b",
"LDAB.B %b","D6b",
"LDAB.W %w","F6W",
"LDD.W #%w","CCW",
"LDD.B %b,X","ECb",
"LDD.B %b","DCb",
"LDD.W %w","FCW",
"LDS #%w","8EW",
"LDS %b,X","AEb",
"LDS %b","9Eb",
"LDS %h","BEH",
"LDS.W #%w","8EW",
"LDS.B %b,X","AEb",
"LDS.B %b","9Eb",
"LDS.W %w","BEW",
"LDX #%w","CEW",
"LDX %b,X","EEb",
"LDX %b","DEb",
"LDX %h","FEH",
"LDX.W #%w","CEW",
"LDX.B %b,X","EEb",
"LDX.B %b","DEb",
"LDX.W %w","FEW",
"LSLA","48",
"LSLB","58",
"LSLD","05",
"LSL %b,X","65b",
"LSL %w","78W",
"LSL.B %b,X","65b",
"LSL.W %w","78W",
"LSRA","44",
"LSRB","54",
"LSRD","04",
"LSR %b,X","64b",
"LSR %w","74W",
"LSR.B %b,X","64b",
"LSR.W %w","74W",
"MUL","3D",
"NEGA","40",
"NEGB","50",
"NEG %b,X","60b",
"NEG %w","70W",
"NEG.B %b,X","60b",
"NEG.W %w","70W",
"NOP","01",
"ORAA #%b","8Ab",
"ORAA %b,X","AAb",
"ORAA %b","9Ab",
"ORAA %h","BAH",
"ORAB #%b","CAb",
"ORAB %b,X","EAb",
"ORAB %b","DAb",
"ORAB %h","FAH",
"ORAA.B #%b","8Ab",
"ORAA.B %b,X","AAb",
"ORAA.B %b","9Ab",
"ORAA.W %w","BAW",
"ORAB.B #%b","CAb",
"ORAB.B %b,X","EAb",
"ORAB.B %b","DAb",
"ORAB.W %w","FAW",
"PSHA","36",
"PSHB","37",
"PSHX","3C",
"PULA","32",
"PULB","33",
"PULX","38",
"ROLA","49",
"ROLB","59",
"ROL %b,X","69b",
"ROL %w","79W",
"ROL.B %b,X","69b",
"ROL.W %w","79W",
"RORA","46",
"RORB","56",
"ROR %b,X","66b",
"ROR %w","76W",
"ROR.B %b,X","66b",
"ROR.W %w","76W",
"RTI","3B",
"RTS","39",
"SBA","10",
"SBCA #%b","82b",
"SBCA %b,X","A2b",
"SBCA %b","92b",
"SBCA %h","B2H",
"SBCB #%b","C2b",
"SBCB %b,X","E2b",
"SBCB %b","D2b",
"SBCB %h","F2H",
"SBCA.B #%b","82b",
"SBCA.B %b,X","A2b",
"SBCA.B %b","92b",
"SBCA.W %w","B2W",
"SBCB.B #%b","C2b",
"SBCB.B %b,X","E2b",
"SBCB.B %b","D2b",
"SBCB.W %w","F2W",
"SEC","0D",
"SEI","0F",
"SEV","0B",
"STAA %b,X","A7b",
"STAA %b","97b",
"STAA %h","B7H",
"STAB %b,X","E7b",
"STAB %b","D7b",
"STAB %h","F7H",
"STD %b,X","EDb",
"STD %b","DDb",
"STD %h","FDH",
"STAA.B %b,X","A7b",
"STAA.B %b","97b",
"STAA.W %w","B7W",
"STAB.B %b,X","E7b",
"STAB.B %b","D7b",
"STAB.W %w","F7W",
"STD.B %b,X","EDb",
"STD.B %b","DDb",
"STD.W %w","FDW",
"STS %b,X","AFb",
"STS %b","9Fb",
"STS %h","BFH",
"STS.B %b,X","AFb",
"STS.B %b","9Fb",
"STS.W %w","BFW",
"STX %b,X","EFb",
"STX %b","DFb",
"STX %h","FFH",
"STX.B %b,X","EFb",
"STX.B %b","DFb",
"STX.W %w","FFW",
"SUBA #%b","80b",
"SUBA %b,X","A0b",
"SUBA %b","90b",
"SUBA %h","B0H",
"SUBB #%b","C0b",
"SUBB %b,X","E0b",
"SUBB %b","D0b",
"SUBB %h","F0H",
"SUBD #%w","83W",
"SUBD %b,X","A3b",
"SUBD %b","93b",
"SUBD %h","B3H",
"SUBA.B #%b","80b",
"SUBA.B %b,X","A0b",
"SUBA.B %b","90b",
"SUBA.W %w","B0W",
"SUBB.B #%b","C0b",
"SUBB.B %b,X","E0b",
"SUBB.B %b","D0b",
"SUBB.W %w","F0W",
"SUBD.W #%w","83W",
"SUBD.B %b,X","A3b",
"SUBD.B %b","93b",
"SUBD.W %w","B3W",
"SWI","3F",
"TAB","16",
"TAP","06",
"TBA","17",
"TPA","07",
"TSTA","4D",
"TSTB","5D",
"TST %b,X","6Db",
"TST %w","7DW",
"TST.B %b,X","6Db",
"TST.W %w","7DW",
"TSX","30",
"TXS","35",
"WAI","3E",
0};
static const char *const RELI[] = {
"BCC %r","24r",
"BHS %r","24r",
"BCS %r","25r",
"BLO %r","25r",
"BEQ %r","27r",
"BGE %r","2Cr",
"BGT %r","2Er",
"BHI %r","22r",
"BCC.B %r","24r",
"BHS.B %r","24r",
"BCS.B %r","25r",
"BLO.B %r","25r",
"BEQ.B %r","27r",
"BGE.B %r","2Cr",
"BGT.B %r","2Er",
"BHI.B %r","22r",
"BLE %r","2Fr",
"BLS %r","23r",
"BLT %r","2Dr",
"BMI %r","2Br",
"BNE %r","26r",
"BPL %r","2Ar",
"BRA %r","20r",
"BRN %r","21r",
"BSR %r","8Dr",
"BVC %r","28r",
"BVS %r","29r",
"BLE.B %r","2Fr",
"BLS.B %r","23r",
"BLT.B %r","2Dr",
"BMI.B %r","2Br",
"BNE.B %r","26r",
"BPL.B %r","2Ar",
"BRA.B %r","20r",
"BRN.B %r","21r",
"BSR.B %r","8Dr",
"BVC.B %r","28r",
"BVS.B %r","29r",
0};
