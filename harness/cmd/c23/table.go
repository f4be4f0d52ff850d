package main

import "github.com/renthraysk/xtorm/collation"

// Generated by tools/gen_collations.py from Boost.MySQL's mysql_collations.hpp.

var mysqlNames = map[uint]string{
	1:   "big5_chinese_ci",
	2:   "latin2_czech_cs",
	3:   "dec8_swedish_ci",
	4:   "cp850_general_ci",
	5:   "latin1_german1_ci",
	6:   "hp8_english_ci",
	7:   "koi8r_general_ci",
	8:   "latin1_swedish_ci",
	9:   "latin2_general_ci",
	10:  "swe7_swedish_ci",
	11:  "ascii_general_ci",
	12:  "ujis_japanese_ci",
	13:  "sjis_japanese_ci",
	14:  "cp1251_bulgarian_ci",
	15:  "latin1_danish_ci",
	16:  "hebrew_general_ci",
	18:  "tis620_thai_ci",
	19:  "euckr_korean_ci",
	20:  "latin7_estonian_cs",
	21:  "latin2_hungarian_ci",
	22:  "koi8u_general_ci",
	23:  "cp1251_ukrainian_ci",
	24:  "gb2312_chinese_ci",
	25:  "greek_general_ci",
	26:  "cp1250_general_ci",
	27:  "latin2_croatian_ci",
	28:  "gbk_chinese_ci",
	29:  "cp1257_lithuanian_ci",
	30:  "latin5_turkish_ci",
	31:  "latin1_german2_ci",
	32:  "armscii8_general_ci",
	33:  "utf8_general_ci",
	34:  "cp1250_czech_cs",
	35:  "ucs2_general_ci",
	36:  "cp866_general_ci",
	37:  "keybcs2_general_ci",
	38:  "macce_general_ci",
	39:  "macroman_general_ci",
	40:  "cp852_general_ci",
	41:  "latin7_general_ci",
	42:  "latin7_general_cs",
	43:  "macce_bin",
	44:  "cp1250_croatian_ci",
	45:  "utf8mb4_general_ci",
	46:  "utf8mb4_bin",
	47:  "latin1_bin",
	48:  "latin1_general_ci",
	49:  "latin1_general_cs",
	50:  "cp1251_bin",
	51:  "cp1251_general_ci",
	52:  "cp1251_general_cs",
	53:  "macroman_bin",
	54:  "utf16_general_ci",
	55:  "utf16_bin",
	56:  "utf16le_general_ci",
	57:  "cp1256_general_ci",
	58:  "cp1257_bin",
	59:  "cp1257_general_ci",
	60:  "utf32_general_ci",
	61:  "utf32_bin",
	62:  "utf16le_bin",
	63:  "binary",
	64:  "armscii8_bin",
	65:  "ascii_bin",
	66:  "cp1250_bin",
	67:  "cp1256_bin",
	68:  "cp866_bin",
	69:  "dec8_bin",
	70:  "greek_bin",
	71:  "hebrew_bin",
	72:  "hp8_bin",
	73:  "keybcs2_bin",
	74:  "koi8r_bin",
	75:  "koi8u_bin",
	76:  "utf8_tolower_ci",
	77:  "latin2_bin",
	78:  "latin5_bin",
	79:  "latin7_bin",
	80:  "cp850_bin",
	81:  "cp852_bin",
	82:  "swe7_bin",
	83:  "utf8_bin",
	84:  "big5_bin",
	85:  "euckr_bin",
	86:  "gb2312_bin",
	87:  "gbk_bin",
	88:  "sjis_bin",
	89:  "tis620_bin",
	90:  "ucs2_bin",
	91:  "ujis_bin",
	92:  "geostd8_general_ci",
	93:  "geostd8_bin",
	94:  "latin1_spanish_ci",
	95:  "cp932_japanese_ci",
	96:  "cp932_bin",
	97:  "eucjpms_japanese_ci",
	98:  "eucjpms_bin",
	99:  "cp1250_polish_ci",
	101: "utf16_unicode_ci",
	102: "utf16_icelandic_ci",
	103: "utf16_latvian_ci",
	104: "utf16_romanian_ci",
	105: "utf16_slovenian_ci",
	106: "utf16_polish_ci",
	107: "utf16_estonian_ci",
	108: "utf16_spanish_ci",
	109: "utf16_swedish_ci",
	110: "utf16_turkish_ci",
	111: "utf16_czech_ci",
	112: "utf16_danish_ci",
	113: "utf16_lithuanian_ci",
	114: "utf16_slovak_ci",
	115: "utf16_spanish2_ci",
	116: "utf16_roman_ci",
	117: "utf16_persian_ci",
	118: "utf16_esperanto_ci",
	119: "utf16_hungarian_ci",
	120: "utf16_sinhala_ci",
	121: "utf16_german2_ci",
	122: "utf16_croatian_ci",
	123: "utf16_unicode_520_ci",
	124: "utf16_vietnamese_ci",
	128: "ucs2_unicode_ci",
	129: "ucs2_icelandic_ci",
	130: "ucs2_latvian_ci",
	131: "ucs2_romanian_ci",
	132: "ucs2_slovenian_ci",
	133: "ucs2_polish_ci",
	134: "ucs2_estonian_ci",
	135: "ucs2_spanish_ci",
	136: "ucs2_swedish_ci",
	137: "ucs2_turkish_ci",
	138: "ucs2_czech_ci",
	139: "ucs2_danish_ci",
	140: "ucs2_lithuanian_ci",
	141: "ucs2_slovak_ci",
	142: "ucs2_spanish2_ci",
	143: "ucs2_roman_ci",
	144: "ucs2_persian_ci",
	145: "ucs2_esperanto_ci",
	146: "ucs2_hungarian_ci",
	147: "ucs2_sinhala_ci",
	148: "ucs2_german2_ci",
	149: "ucs2_croatian_ci",
	150: "ucs2_unicode_520_ci",
	151: "ucs2_vietnamese_ci",
	159: "ucs2_general_mysql500_ci",
	160: "utf32_unicode_ci",
	161: "utf32_icelandic_ci",
	162: "utf32_latvian_ci",
	163: "utf32_romanian_ci",
	164: "utf32_slovenian_ci",
	165: "utf32_polish_ci",
	166: "utf32_estonian_ci",
	167: "utf32_spanish_ci",
	168: "utf32_swedish_ci",
	169: "utf32_turkish_ci",
	170: "utf32_czech_ci",
	171: "utf32_danish_ci",
	172: "utf32_lithuanian_ci",
	173: "utf32_slovak_ci",
	174: "utf32_spanish2_ci",
	175: "utf32_roman_ci",
	176: "utf32_persian_ci",
	177: "utf32_esperanto_ci",
	178: "utf32_hungarian_ci",
	179: "utf32_sinhala_ci",
	180: "utf32_german2_ci",
	181: "utf32_croatian_ci",
	182: "utf32_unicode_520_ci",
	183: "utf32_vietnamese_ci",
	192: "utf8_unicode_ci",
	193: "utf8_icelandic_ci",
	194: "utf8_latvian_ci",
	195: "utf8_romanian_ci",
	196: "utf8_slovenian_ci",
	197: "utf8_polish_ci",
	198: "utf8_estonian_ci",
	199: "utf8_spanish_ci",
	200: "utf8_swedish_ci",
	201: "utf8_turkish_ci",
	202: "utf8_czech_ci",
	203: "utf8_danish_ci",
	204: "utf8_lithuanian_ci",
	205: "utf8_slovak_ci",
	206: "utf8_spanish2_ci",
	207: "utf8_roman_ci",
	208: "utf8_persian_ci",
	209: "utf8_esperanto_ci",
	210: "utf8_hungarian_ci",
	211: "utf8_sinhala_ci",
	212: "utf8_german2_ci",
	213: "utf8_croatian_ci",
	214: "utf8_unicode_520_ci",
	215: "utf8_vietnamese_ci",
	223: "utf8_general_mysql500_ci",
	224: "utf8mb4_unicode_ci",
	225: "utf8mb4_icelandic_ci",
	226: "utf8mb4_latvian_ci",
	227: "utf8mb4_romanian_ci",
	228: "utf8mb4_slovenian_ci",
	229: "utf8mb4_polish_ci",
	230: "utf8mb4_estonian_ci",
	231: "utf8mb4_spanish_ci",
	232: "utf8mb4_swedish_ci",
	233: "utf8mb4_turkish_ci",
	234: "utf8mb4_czech_ci",
	235: "utf8mb4_danish_ci",
	236: "utf8mb4_lithuanian_ci",
	237: "utf8mb4_slovak_ci",
	238: "utf8mb4_spanish2_ci",
	239: "utf8mb4_roman_ci",
	240: "utf8mb4_persian_ci",
	241: "utf8mb4_esperanto_ci",
	242: "utf8mb4_hungarian_ci",
	243: "utf8mb4_sinhala_ci",
	244: "utf8mb4_german2_ci",
	245: "utf8mb4_croatian_ci",
	246: "utf8mb4_unicode_520_ci",
	247: "utf8mb4_vietnamese_ci",
	248: "gb18030_chinese_ci",
	249: "gb18030_bin",
	250: "gb18030_unicode_520_ci",
	255: "utf8mb4_0900_ai_ci",
	256: "utf8mb4_de_pb_0900_ai_ci",
	257: "utf8mb4_is_0900_ai_ci",
	258: "utf8mb4_lv_0900_ai_ci",
	259: "utf8mb4_ro_0900_ai_ci",
	260: "utf8mb4_sl_0900_ai_ci",
	261: "utf8mb4_pl_0900_ai_ci",
	262: "utf8mb4_et_0900_ai_ci",
	263: "utf8mb4_es_0900_ai_ci",
	264: "utf8mb4_sv_0900_ai_ci",
	265: "utf8mb4_tr_0900_ai_ci",
	266: "utf8mb4_cs_0900_ai_ci",
	267: "utf8mb4_da_0900_ai_ci",
	268: "utf8mb4_lt_0900_ai_ci",
	269: "utf8mb4_sk_0900_ai_ci",
	270: "utf8mb4_es_trad_0900_ai_ci",
	271: "utf8mb4_la_0900_ai_ci",
	273: "utf8mb4_eo_0900_ai_ci",
	274: "utf8mb4_hu_0900_ai_ci",
	275: "utf8mb4_hr_0900_ai_ci",
	277: "utf8mb4_vi_0900_ai_ci",
	278: "utf8mb4_0900_as_cs",
	279: "utf8mb4_de_pb_0900_as_cs",
	280: "utf8mb4_is_0900_as_cs",
	281: "utf8mb4_lv_0900_as_cs",
	282: "utf8mb4_ro_0900_as_cs",
	283: "utf8mb4_sl_0900_as_cs",
	284: "utf8mb4_pl_0900_as_cs",
	285: "utf8mb4_et_0900_as_cs",
	286: "utf8mb4_es_0900_as_cs",
	287: "utf8mb4_sv_0900_as_cs",
	288: "utf8mb4_tr_0900_as_cs",
	289: "utf8mb4_cs_0900_as_cs",
	290: "utf8mb4_da_0900_as_cs",
	291: "utf8mb4_lt_0900_as_cs",
	292: "utf8mb4_sk_0900_as_cs",
	293: "utf8mb4_es_trad_0900_as_cs",
	294: "utf8mb4_la_0900_as_cs",
	296: "utf8mb4_eo_0900_as_cs",
	297: "utf8mb4_hu_0900_as_cs",
	298: "utf8mb4_hr_0900_as_cs",
	300: "utf8mb4_vi_0900_as_cs",
	303: "utf8mb4_ja_0900_as_cs",
	304: "utf8mb4_ja_0900_as_cs_ks",
	305: "utf8mb4_0900_as_ci",
	306: "utf8mb4_ru_0900_ai_ci",
	307: "utf8mb4_ru_0900_as_cs",
	308: "utf8mb4_zh_0900_as_cs",
	309: "utf8mb4_0900_bin",
}

// constants: exported constant and the collation its name spells.
var constants = []struct {
	go_, mysql string
	v          collation.Collation
}{
	{"Big5ChineseCi", "big5_chinese_ci", collation.Big5ChineseCi},
	{"Latin2CzechCs", "latin2_czech_cs", collation.Latin2CzechCs},
	{"Dec8SwedishCi", "dec8_swedish_ci", collation.Dec8SwedishCi},
	{"Cp850GeneralCi", "cp850_general_ci", collation.Cp850GeneralCi},
	{"Latin1German1Ci", "latin1_german1_ci", collation.Latin1German1Ci},
	{"Hp8EnglishCi", "hp8_english_ci", collation.Hp8EnglishCi},
	{"Koi8rGeneralCi", "koi8r_general_ci", collation.Koi8rGeneralCi},
	{"Latin1SwedishCi", "latin1_swedish_ci", collation.Latin1SwedishCi},
	{"Latin2GeneralCi", "latin2_general_ci", collation.Latin2GeneralCi},
	{"Swe7SwedishCi", "swe7_swedish_ci", collation.Swe7SwedishCi},
	{"ASCIIGeneralCi", "ascii_general_ci", collation.ASCIIGeneralCi},
	{"UjisJapaneseCi", "ujis_japanese_ci", collation.UjisJapaneseCi},
	{"SjisJapaneseCi", "sjis_japanese_ci", collation.SjisJapaneseCi},
	{"Cp1251BulgarianCi", "cp1251_bulgarian_ci", collation.Cp1251BulgarianCi},
	{"Latin1DanishCi", "latin1_danish_ci", collation.Latin1DanishCi},
	{"HebrewGeneralCi", "hebrew_general_ci", collation.HebrewGeneralCi},
	{"Tis620ThaiCi", "tis620_thai_ci", collation.Tis620ThaiCi},
	{"EuckrKoreanCi", "euckr_korean_ci", collation.EuckrKoreanCi},
	{"Latin7EstonianCs", "latin7_estonian_cs", collation.Latin7EstonianCs},
	{"Latin2HungarianCi", "latin2_hungarian_ci", collation.Latin2HungarianCi},
	{"Koi8uGeneralCi", "koi8u_general_ci", collation.Koi8uGeneralCi},
	{"Cp1251UkrainianCi", "cp1251_ukrainian_ci", collation.Cp1251UkrainianCi},
	{"Gb2312ChineseCi", "gb2312_chinese_ci", collation.Gb2312ChineseCi},
	{"GreekGeneralCi", "greek_general_ci", collation.GreekGeneralCi},
	{"Cp1250GeneralCi", "cp1250_general_ci", collation.Cp1250GeneralCi},
	{"Latin2CroatianCi", "latin2_croatian_ci", collation.Latin2CroatianCi},
	{"GbkChineseCi", "gbk_chinese_ci", collation.GbkChineseCi},
	{"Cp1257LithuanianCi", "cp1257_lithuanian_ci", collation.Cp1257LithuanianCi},
	{"Latin5TurkishCi", "latin5_turkish_ci", collation.Latin5TurkishCi},
	{"Latin1German2Ci", "latin1_german2_ci", collation.Latin1German2Ci},
	{"Armscii8GeneralCi", "armscii8_general_ci", collation.Armscii8GeneralCi},
	{"UTF8GeneralCi", "utf8_general_ci", collation.UTF8GeneralCi},
	{"Cp1250CzechCs", "cp1250_czech_cs", collation.Cp1250CzechCs},
	{"UCS2GeneralCi", "ucs2_general_ci", collation.UCS2GeneralCi},
	{"Cp866GeneralCi", "cp866_general_ci", collation.Cp866GeneralCi},
	{"Keybcs2GeneralCi", "keybcs2_general_ci", collation.Keybcs2GeneralCi},
	{"MacceGeneralCi", "macce_general_ci", collation.MacceGeneralCi},
	{"MacromanGeneralCi", "macroman_general_ci", collation.MacromanGeneralCi},
	{"Cp852GeneralCi", "cp852_general_ci", collation.Cp852GeneralCi},
	{"Latin7GeneralCi", "latin7_general_ci", collation.Latin7GeneralCi},
	{"Latin7GeneralCs", "latin7_general_cs", collation.Latin7GeneralCs},
	{"MacceBin", "macce_bin", collation.MacceBin},
	{"Cp1250CroatianCi", "cp1250_croatian_ci", collation.Cp1250CroatianCi},
	{"UTF8mb4GeneralCi", "utf8mb4_general_ci", collation.UTF8mb4GeneralCi},
	{"UTF8mb4Bin", "utf8mb4_bin", collation.UTF8mb4Bin},
	{"Latin1Bin", "latin1_bin", collation.Latin1Bin},
	{"Latin1GeneralCi", "latin1_general_ci", collation.Latin1GeneralCi},
	{"Latin1GeneralCs", "latin1_general_cs", collation.Latin1GeneralCs},
	{"Cp1251Bin", "cp1251_bin", collation.Cp1251Bin},
	{"Cp1251GeneralCi", "cp1251_general_ci", collation.Cp1251GeneralCi},
	{"Cp1251GeneralCs", "cp1251_general_cs", collation.Cp1251GeneralCs},
	{"MacromanBin", "macroman_bin", collation.MacromanBin},
	{"UTF16GeneralCi", "utf16_general_ci", collation.UTF16GeneralCi},
	{"UTF16Bin", "utf16_bin", collation.UTF16Bin},
	{"UTF16leGeneralCi", "utf16le_general_ci", collation.UTF16leGeneralCi},
	{"Cp1256GeneralCi", "cp1256_general_ci", collation.Cp1256GeneralCi},
	{"Cp1257Bin", "cp1257_bin", collation.Cp1257Bin},
	{"Cp1257GeneralCi", "cp1257_general_ci", collation.Cp1257GeneralCi},
	{"UTF32GeneralCi", "utf32_general_ci", collation.UTF32GeneralCi},
	{"UTF32Bin", "utf32_bin", collation.UTF32Bin},
	{"UTF16leBin", "utf16le_bin", collation.UTF16leBin},
	{"Binary", "binary", collation.Binary},
	{"Armscii8Bin", "armscii8_bin", collation.Armscii8Bin},
	{"ASCIIBin", "ascii_bin", collation.ASCIIBin},
	{"Cp1250Bin", "cp1250_bin", collation.Cp1250Bin},
	{"Cp1256Bin", "cp1256_bin", collation.Cp1256Bin},
	{"Cp866Bin", "cp866_bin", collation.Cp866Bin},
	{"Dec8Bin", "dec8_bin", collation.Dec8Bin},
	{"GreekBin", "greek_bin", collation.GreekBin},
	{"HebrewBin", "hebrew_bin", collation.HebrewBin},
	{"Hp8Bin", "hp8_bin", collation.Hp8Bin},
	{"Keybcs2Bin", "keybcs2_bin", collation.Keybcs2Bin},
	{"Koi8rBin", "koi8r_bin", collation.Koi8rBin},
	{"Koi8uBin", "koi8u_bin", collation.Koi8uBin},
	{"UTF8TolowerCi", "utf8_tolower_ci", collation.UTF8TolowerCi},
	{"Latin2Bin", "latin2_bin", collation.Latin2Bin},
	{"Latin5Bin", "latin5_bin", collation.Latin5Bin},
	{"Latin7Bin", "latin7_bin", collation.Latin7Bin},
	{"Cp850Bin", "cp850_bin", collation.Cp850Bin},
	{"Cp852Bin", "cp852_bin", collation.Cp852Bin},
	{"Swe7Bin", "swe7_bin", collation.Swe7Bin},
	{"UTF8Bin", "utf8_bin", collation.UTF8Bin},
	{"Big5Bin", "big5_bin", collation.Big5Bin},
	{"EuckrBin", "euckr_bin", collation.EuckrBin},
	{"Gb2312Bin", "gb2312_bin", collation.Gb2312Bin},
	{"GbkBin", "gbk_bin", collation.GbkBin},
	{"SjisBin", "sjis_bin", collation.SjisBin},
	{"Tis620Bin", "tis620_bin", collation.Tis620Bin},
	{"UCS2Bin", "ucs2_bin", collation.UCS2Bin},
	{"UjisBin", "ujis_bin", collation.UjisBin},
	{"Geostd8GeneralCi", "geostd8_general_ci", collation.Geostd8GeneralCi},
	{"Geostd8Bin", "geostd8_bin", collation.Geostd8Bin},
	{"Latin1SpanishCi", "latin1_spanish_ci", collation.Latin1SpanishCi},
	{"Cp932JapaneseCi", "cp932_japanese_ci", collation.Cp932JapaneseCi},
	{"Cp932Bin", "cp932_bin", collation.Cp932Bin},
	{"EucjpmsJapaneseCi", "eucjpms_japanese_ci", collation.EucjpmsJapaneseCi},
	{"EucjpmsBin", "eucjpms_bin", collation.EucjpmsBin},
	{"Cp1250PolishCi", "cp1250_polish_ci", collation.Cp1250PolishCi},
	{"UTF16UnicodeCi", "utf16_unicode_ci", collation.UTF16UnicodeCi},
	{"UTF16IcelandicCi", "utf16_icelandic_ci", collation.UTF16IcelandicCi},
	{"UTF16LatvianCi", "utf16_latvian_ci", collation.UTF16LatvianCi},
	{"UTF16RomanianCi", "utf16_romanian_ci", collation.UTF16RomanianCi},
	{"UTF16SlovenianCi", "utf16_slovenian_ci", collation.UTF16SlovenianCi},
	{"UTF16PolishCi", "utf16_polish_ci", collation.UTF16PolishCi},
	{"UTF16EstonianCi", "utf16_estonian_ci", collation.UTF16EstonianCi},
	{"UTF16SpanishCi", "utf16_spanish_ci", collation.UTF16SpanishCi},
	{"UTF16SwedishCi", "utf16_swedish_ci", collation.UTF16SwedishCi},
	{"UTF16TurkishCi", "utf16_turkish_ci", collation.UTF16TurkishCi},
	{"UTF16CzechCi", "utf16_czech_ci", collation.UTF16CzechCi},
	{"UTF16DanishCi", "utf16_danish_ci", collation.UTF16DanishCi},
	{"UTF16LithuanianCi", "utf16_lithuanian_ci", collation.UTF16LithuanianCi},
	{"UTF16SlovakCi", "utf16_slovak_ci", collation.UTF16SlovakCi},
	{"UTF16Spanish2Ci", "utf16_spanish2_ci", collation.UTF16Spanish2Ci},
	{"UTF16RomanCi", "utf16_roman_ci", collation.UTF16RomanCi},
	{"UTF16PersianCi", "utf16_persian_ci", collation.UTF16PersianCi},
	{"UTF16EsperantoCi", "utf16_esperanto_ci", collation.UTF16EsperantoCi},
	{"UTF16HungarianCi", "utf16_hungarian_ci", collation.UTF16HungarianCi},
	{"UTF16SinhalaCi", "utf16_sinhala_ci", collation.UTF16SinhalaCi},
	{"UTF16German2Ci", "utf16_german2_ci", collation.UTF16German2Ci},
	{"UTF16CroatianCi", "utf16_croatian_ci", collation.UTF16CroatianCi},
	{"UTF16Unicode520Ci", "utf16_unicode_520_ci", collation.UTF16Unicode520Ci},
	{"UTF16VietnameseCi", "utf16_vietnamese_ci", collation.UTF16VietnameseCi},
	{"UCS2UnicodeCi", "ucs2_unicode_ci", collation.UCS2UnicodeCi},
	{"UCS2IcelandicCi", "ucs2_icelandic_ci", collation.UCS2IcelandicCi},
	{"UCS2LatvianCi", "ucs2_latvian_ci", collation.UCS2LatvianCi},
	{"UCS2RomanianCi", "ucs2_romanian_ci", collation.UCS2RomanianCi},
	{"UCS2SlovenianCi", "ucs2_slovenian_ci", collation.UCS2SlovenianCi},
	{"UCS2PolishCi", "ucs2_polish_ci", collation.UCS2PolishCi},
	{"UCS2EstonianCi", "ucs2_estonian_ci", collation.UCS2EstonianCi},
	{"UCS2SpanishCi", "ucs2_spanish_ci", collation.UCS2SpanishCi},
	{"UCS2SwedishCi", "ucs2_swedish_ci", collation.UCS2SwedishCi},
	{"UCS2TurkishCi", "ucs2_turkish_ci", collation.UCS2TurkishCi},
	{"UCS2CzechCi", "ucs2_czech_ci", collation.UCS2CzechCi},
	{"UCS2DanishCi", "ucs2_danish_ci", collation.UCS2DanishCi},
	{"UCS2LithuanianCi", "ucs2_lithuanian_ci", collation.UCS2LithuanianCi},
	{"UCS2SlovakCi", "ucs2_slovak_ci", collation.UCS2SlovakCi},
	{"UCS2Spanish2Ci", "ucs2_spanish2_ci", collation.UCS2Spanish2Ci},
	{"UCS2RomanCi", "ucs2_roman_ci", collation.UCS2RomanCi},
	{"UCS2PersianCi", "ucs2_persian_ci", collation.UCS2PersianCi},
	{"UCS2EsperantoCi", "ucs2_esperanto_ci", collation.UCS2EsperantoCi},
	{"UCS2HungarianCi", "ucs2_hungarian_ci", collation.UCS2HungarianCi},
	{"UCS2SinhalaCi", "ucs2_sinhala_ci", collation.UCS2SinhalaCi},
	{"UCS2German2Ci", "ucs2_german2_ci", collation.UCS2German2Ci},
	{"UCS2CroatianCi", "ucs2_croatian_ci", collation.UCS2CroatianCi},
	{"UCS2Unicode520Ci", "ucs2_unicode_520_ci", collation.UCS2Unicode520Ci},
	{"UCS2VietnameseCi", "ucs2_vietnamese_ci", collation.UCS2VietnameseCi},
	{"UCS2GeneralMySQL500Ci", "ucs2_general_mysql500_ci", collation.UCS2GeneralMySQL500Ci},
	{"UTF32UnicodeCi", "utf32_unicode_ci", collation.UTF32UnicodeCi},
	{"UTF32IcelandicCi", "utf32_icelandic_ci", collation.UTF32IcelandicCi},
	{"UTF32LatvianCi", "utf32_latvian_ci", collation.UTF32LatvianCi},
	{"UTF32RomanianCi", "utf32_romanian_ci", collation.UTF32RomanianCi},
	{"UTF32SlovenianCi", "utf32_slovenian_ci", collation.UTF32SlovenianCi},
	{"UTF32PolishCi", "utf32_polish_ci", collation.UTF32PolishCi},
	{"UTF32EstonianCi", "utf32_estonian_ci", collation.UTF32EstonianCi},
	{"UTF32SpanishCi", "utf32_spanish_ci", collation.UTF32SpanishCi},
	{"UTF32SwedishCi", "utf32_swedish_ci", collation.UTF32SwedishCi},
	{"UTF32TurkishCi", "utf32_turkish_ci", collation.UTF32TurkishCi},
	{"UTF32CzechCi", "utf32_czech_ci", collation.UTF32CzechCi},
	{"UTF32DanishCi", "utf32_danish_ci", collation.UTF32DanishCi},
	{"UTF32LithuanianCi", "utf32_lithuanian_ci", collation.UTF32LithuanianCi},
	{"UTF32SlovakCi", "utf32_slovak_ci", collation.UTF32SlovakCi},
	{"UTF32Spanish2Ci", "utf32_spanish2_ci", collation.UTF32Spanish2Ci},
	{"UTF32RomanCi", "utf32_roman_ci", collation.UTF32RomanCi},
	{"UTF32PersianCi", "utf32_persian_ci", collation.UTF32PersianCi},
	{"UTF32EsperantoCi", "utf32_esperanto_ci", collation.UTF32EsperantoCi},
	{"UTF32HungarianCi", "utf32_hungarian_ci", collation.UTF32HungarianCi},
	{"UTF32SinhalaCi", "utf32_sinhala_ci", collation.UTF32SinhalaCi},
	{"UTF32German2Ci", "utf32_german2_ci", collation.UTF32German2Ci},
	{"UTF32CroatianCi", "utf32_croatian_ci", collation.UTF32CroatianCi},
	{"UTF32Unicode520Ci", "utf32_unicode_520_ci", collation.UTF32Unicode520Ci},
	{"UTF32VietnameseCi", "utf32_vietnamese_ci", collation.UTF32VietnameseCi},
	{"UTF8UnicodeCi", "utf8_unicode_ci", collation.UTF8UnicodeCi},
	{"UTF8IcelandicCi", "utf8_icelandic_ci", collation.UTF8IcelandicCi},
	{"UTF8LatvianCi", "utf8_latvian_ci", collation.UTF8LatvianCi},
	{"UTF8RomanianCi", "utf8_romanian_ci", collation.UTF8RomanianCi},
	{"UTF8SlovenianCi", "utf8_slovenian_ci", collation.UTF8SlovenianCi},
	{"UTF8PolishCi", "utf8_polish_ci", collation.UTF8PolishCi},
	{"UTF8EstonianCi", "utf8_estonian_ci", collation.UTF8EstonianCi},
	{"UTF8SpanishCi", "utf8_spanish_ci", collation.UTF8SpanishCi},
	{"UTF8SwedishCi", "utf8_swedish_ci", collation.UTF8SwedishCi},
	{"UTF8TurkishCi", "utf8_turkish_ci", collation.UTF8TurkishCi},
	{"UTF8CzechCi", "utf8_czech_ci", collation.UTF8CzechCi},
	{"UTF8DanishCi", "utf8_danish_ci", collation.UTF8DanishCi},
	{"UTF8LithuanianCi", "utf8_lithuanian_ci", collation.UTF8LithuanianCi},
	{"UTF8SlovakCi", "utf8_slovak_ci", collation.UTF8SlovakCi},
	{"UTF8Spanish2Ci", "utf8_spanish2_ci", collation.UTF8Spanish2Ci},
	{"UTF8RomanCi", "utf8_roman_ci", collation.UTF8RomanCi},
	{"UTF8PersianCi", "utf8_persian_ci", collation.UTF8PersianCi},
	{"UTF8EsperantoCi", "utf8_esperanto_ci", collation.UTF8EsperantoCi},
	{"UTF8HungarianCi", "utf8_hungarian_ci", collation.UTF8HungarianCi},
	{"UTF8SinhalaCi", "utf8_sinhala_ci", collation.UTF8SinhalaCi},
	{"UTF8German2Ci", "utf8_german2_ci", collation.UTF8German2Ci},
	{"UTF8CroatianCi", "utf8_croatian_ci", collation.UTF8CroatianCi},
	{"UTF8Unicode520Ci", "utf8_unicode_520_ci", collation.UTF8Unicode520Ci},
	{"UTF8VietnameseCi", "utf8_vietnamese_ci", collation.UTF8VietnameseCi},
	{"UTF8GeneralMySQL500Ci", "utf8_general_mysql500_ci", collation.UTF8GeneralMySQL500Ci},
	{"UTF8mb4UnicodeCi", "utf8mb4_unicode_ci", collation.UTF8mb4UnicodeCi},
	{"UTF8mb4IcelandicCi", "utf8mb4_icelandic_ci", collation.UTF8mb4IcelandicCi},
	{"UTF8mb4LatvianCi", "utf8mb4_latvian_ci", collation.UTF8mb4LatvianCi},
	{"UTF8mb4RomanianCi", "utf8mb4_romanian_ci", collation.UTF8mb4RomanianCi},
	{"UTF8mb4SlovenianCi", "utf8mb4_slovenian_ci", collation.UTF8mb4SlovenianCi},
	{"UTF8mb4PolishCi", "utf8mb4_polish_ci", collation.UTF8mb4PolishCi},
	{"UTF8mb4EstonianCi", "utf8mb4_estonian_ci", collation.UTF8mb4EstonianCi},
	{"UTF8mb4SpanishCi", "utf8mb4_spanish_ci", collation.UTF8mb4SpanishCi},
	{"UTF8mb4SwedishCi", "utf8mb4_swedish_ci", collation.UTF8mb4SwedishCi},
	{"UTF8mb4TurkishCi", "utf8mb4_turkish_ci", collation.UTF8mb4TurkishCi},
	{"UTF8mb4CzechCi", "utf8mb4_czech_ci", collation.UTF8mb4CzechCi},
	{"UTF8mb4DanishCi", "utf8mb4_danish_ci", collation.UTF8mb4DanishCi},
	{"UTF8mb4LithuanianCi", "utf8mb4_lithuanian_ci", collation.UTF8mb4LithuanianCi},
	{"UTF8mb4SlovakCi", "utf8mb4_slovak_ci", collation.UTF8mb4SlovakCi},
	{"UTF8mb4Spanish2Ci", "utf8mb4_spanish2_ci", collation.UTF8mb4Spanish2Ci},
	{"UTF8mb4RomanCi", "utf8mb4_roman_ci", collation.UTF8mb4RomanCi},
	{"UTF8mb4PersianCi", "utf8mb4_persian_ci", collation.UTF8mb4PersianCi},
	{"UTF8mb4EsperantoCi", "utf8mb4_esperanto_ci", collation.UTF8mb4EsperantoCi},
	{"UTF8mb4HungarianCi", "utf8mb4_hungarian_ci", collation.UTF8mb4HungarianCi},
	{"UTF8mb4SinhalaCi", "utf8mb4_sinhala_ci", collation.UTF8mb4SinhalaCi},
	{"UTF8mb4German2Ci", "utf8mb4_german2_ci", collation.UTF8mb4German2Ci},
	{"UTF8mb4CroatianCi", "utf8mb4_croatian_ci", collation.UTF8mb4CroatianCi},
	{"UTF8mb4Unicode520Ci", "utf8mb4_unicode_520_ci", collation.UTF8mb4Unicode520Ci},
	{"UTF8mb4VietnameseCi", "utf8mb4_vietnamese_ci", collation.UTF8mb4VietnameseCi},
	{"Gb18030ChineseCi", "gb18030_chinese_ci", collation.Gb18030ChineseCi},
	{"Gb18030Bin", "gb18030_bin", collation.Gb18030Bin},
	{"Gb18030Unicode520Ci", "gb18030_unicode_520_ci", collation.Gb18030Unicode520Ci},
	{"UTF8mb40900AiCi", "utf8mb4_0900_ai_ci", collation.UTF8mb40900AiCi},
	{"UTF8mb4DePb0900AiCi", "utf8mb4_de_pb_0900_ai_ci", collation.UTF8mb4DePb0900AiCi},
	{"UTF8mb4Is0900AiCi", "utf8mb4_is_0900_ai_ci", collation.UTF8mb4Is0900AiCi},
	{"UTF8mb4Lv0900AiCi", "utf8mb4_lv_0900_ai_ci", collation.UTF8mb4Lv0900AiCi},
	{"UTF8mb4Ro0900AiCi", "utf8mb4_ro_0900_ai_ci", collation.UTF8mb4Ro0900AiCi},
	{"UTF8mb4Sl0900AiCi", "utf8mb4_sl_0900_ai_ci", collation.UTF8mb4Sl0900AiCi},
	{"UTF8mb4Pl0900AiCi", "utf8mb4_pl_0900_ai_ci", collation.UTF8mb4Pl0900AiCi},
	{"UTF8mb4Et0900AiCi", "utf8mb4_et_0900_ai_ci", collation.UTF8mb4Et0900AiCi},
	{"UTF8mb4Es0900AiCi", "utf8mb4_es_0900_ai_ci", collation.UTF8mb4Es0900AiCi},
	{"UTF8mb4Sv0900AiCi", "utf8mb4_sv_0900_ai_ci", collation.UTF8mb4Sv0900AiCi},
	{"UTF8mb4Tr0900AiCi", "utf8mb4_tr_0900_ai_ci", collation.UTF8mb4Tr0900AiCi},
	{"UTF8mb4Cs0900AiCi", "utf8mb4_cs_0900_ai_ci", collation.UTF8mb4Cs0900AiCi},
	{"UTF8mb4Da0900AiCi", "utf8mb4_da_0900_ai_ci", collation.UTF8mb4Da0900AiCi},
	{"UTF8mb4Lt0900AiCi", "utf8mb4_lt_0900_ai_ci", collation.UTF8mb4Lt0900AiCi},
	{"UTF8mb4Sk0900AiCi", "utf8mb4_sk_0900_ai_ci", collation.UTF8mb4Sk0900AiCi},
	{"UTF8mb4EsTrad0900AiCi", "utf8mb4_es_trad_0900_ai_ci", collation.UTF8mb4EsTrad0900AiCi},
	{"UTF8mb4La0900AiCi", "utf8mb4_la_0900_ai_ci", collation.UTF8mb4La0900AiCi},
	{"UTF8mb4Eo0900AiCi", "utf8mb4_eo_0900_ai_ci", collation.UTF8mb4Eo0900AiCi},
	{"UTF8mb4Hu0900AiCi", "utf8mb4_hu_0900_ai_ci", collation.UTF8mb4Hu0900AiCi},
	{"UTF8mb4Hr0900AiCi", "utf8mb4_hr_0900_ai_ci", collation.UTF8mb4Hr0900AiCi},
	{"UTF8mb4Vi0900AiCi", "utf8mb4_vi_0900_ai_ci", collation.UTF8mb4Vi0900AiCi},
	{"UTF8mb40900AsCs", "utf8mb4_0900_as_cs", collation.UTF8mb40900AsCs},
	{"UTF8mb4DePb0900AsCs", "utf8mb4_de_pb_0900_as_cs", collation.UTF8mb4DePb0900AsCs},
	{"UTF8mb4Is0900AsCs", "utf8mb4_is_0900_as_cs", collation.UTF8mb4Is0900AsCs},
	{"UTF8mb4Lv0900AsCs", "utf8mb4_lv_0900_as_cs", collation.UTF8mb4Lv0900AsCs},
	{"UTF8mb4Ro0900AsCs", "utf8mb4_ro_0900_as_cs", collation.UTF8mb4Ro0900AsCs},
	{"UTF8mb4Sl0900AsCs", "utf8mb4_sl_0900_as_cs", collation.UTF8mb4Sl0900AsCs},
	{"UTF8mb4Pl0900AsCs", "utf8mb4_pl_0900_as_cs", collation.UTF8mb4Pl0900AsCs},
	{"UTF8mb4Et0900AsCs", "utf8mb4_et_0900_as_cs", collation.UTF8mb4Et0900AsCs},
	{"UTF8mb4Es0900AsCs", "utf8mb4_es_0900_as_cs", collation.UTF8mb4Es0900AsCs},
	{"UTF8mb4Sv0900AsCs", "utf8mb4_sv_0900_as_cs", collation.UTF8mb4Sv0900AsCs},
	{"UTF8mb4Tr0900AsCs", "utf8mb4_tr_0900_as_cs", collation.UTF8mb4Tr0900AsCs},
	{"UTF8mb4Cs0900AsCs", "utf8mb4_cs_0900_as_cs", collation.UTF8mb4Cs0900AsCs},
	{"UTF8mb4Da0900AsCs", "utf8mb4_da_0900_as_cs", collation.UTF8mb4Da0900AsCs},
	{"UTF8mb4Lt0900AsCs", "utf8mb4_lt_0900_as_cs", collation.UTF8mb4Lt0900AsCs},
	{"UTF8mb4Sk0900AsCs", "utf8mb4_sk_0900_as_cs", collation.UTF8mb4Sk0900AsCs},
	{"UTF8mb4EsTrad0900AsCs", "utf8mb4_es_trad_0900_as_cs", collation.UTF8mb4EsTrad0900AsCs},
	{"UTF8mb4La0900AsCs", "utf8mb4_la_0900_as_cs", collation.UTF8mb4La0900AsCs},
	{"UTF8mb4Eo0900AsCs", "utf8mb4_eo_0900_as_cs", collation.UTF8mb4Eo0900AsCs},
	{"UTF8mb4Hu0900AsCs", "utf8mb4_hu_0900_as_cs", collation.UTF8mb4Hu0900AsCs},
	{"UTF8mb4Hr0900AsCs", "utf8mb4_hr_0900_as_cs", collation.UTF8mb4Hr0900AsCs},
	{"UTF8mb4Vi0900AsCs", "utf8mb4_vi_0900_as_cs", collation.UTF8mb4Vi0900AsCs},
	{"UTF8mb4Ja0900AsCs", "utf8mb4_ja_0900_as_cs", collation.UTF8mb4Ja0900AsCs},
	{"UTF8mb4Ja0900AsCsKs", "utf8mb4_ja_0900_as_cs_ks", collation.UTF8mb4Ja0900AsCsKs},
	{"UTF8mb40900AsCi", "utf8mb4_0900_as_ci", collation.UTF8mb40900AsCi},
	{"UTF8mb4Ru0900AiCi", "utf8mb4_ru_0900_ai_ci", collation.UTF8mb4Ru0900AiCi},
	{"UTF8mb4Ru0900AsCs", "utf8mb4_ru_0900_as_cs", collation.UTF8mb4Ru0900AsCs},
}
