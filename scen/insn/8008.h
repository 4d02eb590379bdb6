/* 8008: instruction text and encoding */
static const char *const INSN[] = {
"ACA","88",
"ACB","89",
"ACC","8A",
"ACD","8B",
"ACE","8C",
"ACH","8D",
"ACI %b","0Cb",
"ACL","8E",
"ACM","8F",
"ADA","80",
"ADB","81",
"ADC","82",
"ADD","83",
"ADE","84",
"ADH","85",
"ADI %b","04b",
"ADL","86",
"ADM","87",
"CAL %w","46w",
"CFC %w","42w",
"CFP %w","5Aw",
"CFS %w","52w",
"CFZ %w","4Aw",
"CPA","B8",
"CPB","B9",
"CPC","BA",
"CPD","BB",
"CPE","BC",
"CPH","BD",
"CPI %b","3Cb",
"CPL","BE",
"CPM","BF",
"CTC %w","62w",
"CTP %w","7Aw",
"CTS %w","72w",
"CTZ %w","6Aw",
"DCB","09",
"DCC","11",
"DCD","19",
"DCE","21",
"DCH","29",
"DCL","31",
"HLT","FF",
"INB","08",
"INC","10",
"IND","18",
"INE","20",
"INH","28",
"INL","30",
"INP 0","41",
"INP 1","43",
"INP 2","45",
"INP 3","47",
"INP 4","49",
"INP 5","4B",
"INP 6","4D",
"INP 7","4F",
"JFC %w","40w",
"JFP %w","58w",
"JFS %w","50w",
"JFZ %w","48w",
"JMP %w","44w",
"JTC %w","60w",
"JTP %w","78w",
"JTS %w","70w",
"JTZ %w","68w",
"LAB","C1",
"LAC","C2",
"LAD","C3",
"LAE","C4",
"LAH","C5",
"LAI %b","06b",
"LAL","C6",
"LAM","C7",
"LBA","C8",
"LBB","C9",
"LBC","CA",
"LBD","CB",
"LBE","CC",
"LBH","CD",
"LBI %b","0Eb",
"LBL","CE",
"LBM","CF",
"LCA","D0",
"LCB","D1",
"LCC","D2",
"LCD","D3",
"LCE","D4",
"LCH","D5",
"LCI %b","16b",
"LCL","D6",
"LCM","D7",
"LDA","D8",
"LDB","D9",
"LDC","DA",
"LDD","DB",
"LDE","DC",
"LDH","DD",
"LDI %b","1Eb",
"LDL","DE",
"LDM","DF",
"LEA","E0",
"LEB","E1",
"LEC","E2",
"LED","E3",
"LEE","E4",
"LEH","E5",
"LEI %b","26b",
"LEL","E6",
"LEM","E7",
"LHA","E8",
"LHB","E9",
"LHC","EA",
"LHD","EB",
"LHE","EC",
"LHH","ED",
"LHI %b","2Eb",
"LHL","EE",
"LHM","EF",
"LLA","F0",
"LLB","F1",
"LLC","F2",
"LLD","F3",
"LLE","F4",
"LLH","F5",
"LLI %b","36b",
"LLL","F6",
"LLM","F7",
"LMA","F8",
"LMB","F9",
"LMC","FA",
"LMD","FB",
"LME","FC",
"LMH","FD",
"LMI %b","2Eb",
"LML","FE",
"NDA","A0",
"NDB","A1",
"NDC","A2",
"NDD","A3",
"NDE","A4",
"NDH","A5",
"NDI %b","24b",
"NDL","A6",
"NDM","A7",
"NOP","C0",
"ORA","B0",
"ORB","B1",
"ORC","B2",
"ORD","B3",
"ORE","B4",
"ORH","B5",
"ORI %b","34b",
"ORL","B6",
"ORM","B7",
"OUT 8","51",
"OUT 9","53",
"OUT 10","55",
"OUT 11","57",
"OUT 12","59",
"OUT 13","5B",
"OUT 14","5D",
"OUT 15","5F",
"OUT 16","61",
"OUT 17","63",
"OUT 18","65",
"OUT 19","67",
"OUT 20","69",
"OUT 21","6B",
"OUT 22","6D",
"OUT 23","6F",
"OUT 24","71",
"OUT 25","73",
"OUT 26","75",
"OUT 27","77",
"OUT 28","79",
"OUT 29","7B",
"OUT 30","7D",
"OUT 31","7F",
"RAL","12",
"RAR","1A",
"RET","07",
"RFC","03",
"RFP","1B",
"RFS","13",
"RFZ","0B",
"RLC","02",
"RRC","0A",
"RST 0","05",
"RST 1","0D",
"RST 2","15",
"RST 3","1D",
"RST 4","25",
"RST 5","2D",
"RST 6","35",
"RST 7","3D",
"RTC","23",
"RTP","3B",
"RTS","33",
"RTZ","2B",
"SBA","98",
"SBB","99",
"SBC","9A",
"SBD","9B",
"SBE","9C",
"SBH","9D",
"SBI %b","1Cb",
"SBL","9E",
"SBM","9F",
"SUA","90",
"SUB","91",
"SUC","92",
"SUD","93",
"SUE","94",
"SUH","95",
"SUI %b","14b",
"SUL","96",
"SUM","97",
"XRA","A8",
"XRB","A9",
"XRC","AA",
"XRD","AB",
"XRE","AC",
"XRH","AD",
"XRI %b","2Cb",
"XRL","AE",
"XRM","AF",
0};
static const char *const RELI[] = {
0};
