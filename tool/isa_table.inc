{"ADC_B", 0xffff8000, 0x00300000},
{"ADC_D", 0xffff8000, 0x00318000},
{"ADC_H", 0xffff8000, 0x00308000},
{"ADC_W", 0xffff8000, 0x00310000},
{"ADDI_D", 0xffc00000, 0x02c00000},
{"ADDI_W", 0xffc00000, 0x02800000},
{"ADDU12I_D", 0xffff8000, 0x00298000},
{"ADDU12I_W", 0xffff8000, 0x00290000},
{"ADDU16I_D", 0xfc000000, 0x10000000},
{"ADD_D", 0xffff8000, 0x00108000},
{"ADD_W", 0xffff8000, 0x00100000},
{"ALSL_D", 0xfffe0000, 0x002c0000},
{"ALSL_W", 0xfffe0000, 0x00040000},
{"ALSL_WU", 0xfffe0000, 0x00060000},
{"AMADD_B", 0xffff8000, 0x385d0000},
{"AMADD_D", 0xffff8000, 0x38618000},
{"AMADD_H", 0xffff8000, 0x385d8000},
{"AMADD_W", 0xffff8000, 0x38610000},
{"AMADD__DB_B", 0xffff8000, 0x385f0000},
{"AMADD__DB_D", 0xffff8000, 0x386a8000},
{"AMADD__DB_H", 0xffff8000, 0x385f8000},
{"AMADD__DB_W", 0xffff8000, 0x386a0000},
{"AMAND_D", 0xffff8000, 0x38628000},
{"AMAND_W", 0xffff8000, 0x38620000},
{"AMAND__DB_D", 0xffff8000, 0x386b8000},
{"AMAND__DB_W", 0xffff8000, 0x386b0000},
{"AMCAS_B", 0xffff8000, 0x38580000},
{"AMCAS_D", 0xffff8000, 0x38598000},
{"AMCAS_H", 0xffff8000, 0x38588000},
{"AMCAS_W", 0xffff8000, 0x38590000},
{"AMCAS__DB_B", 0xffff8000, 0x385a0000},
{"AMCAS__DB_D", 0xffff8000, 0x385b8000},
{"AMCAS__DB_H", 0xffff8000, 0x385a8000},
{"AMCAS__DB_W", 0xffff8000, 0x385b0000},
{"AMMAX_D", 0xffff8000, 0x38658000},
{"AMMAX_DU", 0xffff8000, 0x38678000},
{"AMMAX_W", 0xffff8000, 0x38650000},
{"AMMAX_WU", 0xffff8000, 0x38670000},
{"AMMAX__DB_D", 0xffff8000, 0x386e8000},
{"AMMAX__DB_DU", 0xffff8000, 0x38708000},
{"AMMAX__DB_W", 0xffff8000, 0x386e0000},
{"AMMAX__DB_WU", 0xffff8000, 0x38700000},
{"AMMIN_D", 0xffff8000, 0x38668000},
{"AMMIN_DU", 0xffff8000, 0x38688000},
{"AMMIN_W", 0xffff8000, 0x38660000},
{"AMMIN_WU", 0xffff8000, 0x38680000},
{"AMMIN__DB_D", 0xffff8000, 0x386f8000},
{"AMMIN__DB_DU", 0xffff8000, 0x38718000},
{"AMMIN__DB_W", 0xffff8000, 0x386f0000},
{"AMMIN__DB_WU", 0xffff8000, 0x38710000},
{"AMOR_D", 0xffff8000, 0x38638000},
{"AMOR_W", 0xffff8000, 0x38630000},
{"AMOR__DB_D", 0xffff8000, 0x386c8000},
{"AMOR__DB_W", 0xffff8000, 0x386c0000},
{"AMSWAP_B", 0xffff8000, 0x385c0000},
{"AMSWAP_D", 0xffff8000, 0x38608000},
{"AMSWAP_H", 0xffff8000, 0x385c8000},
{"AMSWAP_W", 0xffff8000, 0x38600000},
{"AMSWAP__DB_B", 0xffff8000, 0x385e0000},
{"AMSWAP__DB_D", 0xffff8000, 0x38698000},
{"AMSWAP__DB_H", 0xffff8000, 0x385e8000},
{"AMSWAP__DB_W", 0xffff8000, 0x38690000},
{"AMXOR_D", 0xffff8000, 0x38648000},
{"AMXOR_W", 0xffff8000, 0x38640000},
{"AMXOR__DB_D", 0xffff8000, 0x386d8000},
{"AMXOR__DB_W", 0xffff8000, 0x386d0000},
{"AND", 0xffff8000, 0x00148000},
{"ANDI", 0xffc00000, 0x03400000},
{"ANDN", 0xffff8000, 0x00168000},
{"ARMADC_W", 0xffff8010, 0x00380010},
{"ARMADD_W", 0xffff8010, 0x00370010},
{"ARMAND_W", 0xffff8010, 0x00390010},
{"ARMMFFLAG", 0xfffc03e0, 0x005c0040},
{"ARMMOVE", 0xffffc000, 0x00364000},
{"ARMMOV_D", 0xffffc01f, 0x003fc01e},
{"ARMMOV_W", 0xffffc01f, 0x003fc01d},
{"ARMMTFLAG", 0xfffc03e0, 0x005c0060},
{"ARMNOT_W", 0xffffc01f, 0x003fc01c},
{"ARMOR_W", 0xffff8010, 0x00398010},
{"ARMROTRI_W", 0xffff8010, 0x003e0010},
{"ARMROTR_W", 0xffff8010, 0x003c0010},
{"ARMRRX_W", 0xffffc01f, 0x003fc01f},
{"ARMSBC_W", 0xffff8010, 0x00388010},
{"ARMSLLI_W", 0xffff8010, 0x003c8010},
{"ARMSLL_W", 0xffff8010, 0x003a8010},
{"ARMSRAI_W", 0xffff8010, 0x003d8010},
{"ARMSRA_W", 0xffff8010, 0x003b8010},
{"ARMSRLI_W", 0xffff8010, 0x003d0010},
{"ARMSRL_W", 0xffff8010, 0x003b0010},
{"ARMSUB_W", 0xffff8010, 0x00378010},
{"ARMXOR_W", 0xffff8010, 0x003a0010},
{"ASRTGT_D", 0xffff801f, 0x00018000},
{"ASRTLE_D", 0xffff801f, 0x00010000},
{"B", 0xfc000000, 0x50000000},
{"BCEQZ", 0xfc000300, 0x48000000},
{"BCNEZ", 0xfc000300, 0x48000100},
{"BEQ", 0xfc000000, 0x58000000},
{"BEQZ", 0xfc000000, 0x40000000},
{"BGE", 0xfc000000, 0x64000000},
{"BGEU", 0xfc000000, 0x6c000000},
{"BITREV_4B", 0xfffffc00, 0x00004800},
{"BITREV_8B", 0xfffffc00, 0x00004c00},
{"BITREV_D", 0xfffffc00, 0x00005400},
{"BITREV_W", 0xfffffc00, 0x00005000},
{"BL", 0xfc000000, 0x54000000},
{"BLT", 0xfc000000, 0x60000000},
{"BLTU", 0xfc000000, 0x68000000},
{"BNE", 0xfc000000, 0x5c000000},
{"BNEZ", 0xfc000000, 0x44000000},
{"BREAK", 0xffff8000, 0x002a0000},
{"BSTRINS_D", 0xffc00000, 0x00800000},
{"BSTRINS_W", 0xffe08000, 0x00600000},
{"BSTRPICK_D", 0xffc00000, 0x00c00000},
{"BSTRPICK_W", 0xffe08000, 0x00608000},
{"BYTEPICK_D", 0xfffc0000, 0x000c0000},
{"BYTEPICK_W", 0xfffe0000, 0x00080000},
{"CACOP", 0xffc00000, 0x06000000},
{"CLO_D", 0xfffffc00, 0x00002000},
{"CLO_W", 0xfffffc00, 0x00001000},
{"CLZ_D", 0xfffffc00, 0x00002400},
{"CLZ_W", 0xfffffc00, 0x00001400},
{"CPUCFG", 0xfffffc00, 0x00006c00},
{"CRCC_W_B_W", 0xffff8000, 0x00260000},
{"CRCC_W_D_W", 0xffff8000, 0x00278000},
{"CRCC_W_H_W", 0xffff8000, 0x00268000},
{"CRCC_W_W_W", 0xffff8000, 0x00270000},
{"CRC_W_B_W", 0xffff8000, 0x00240000},
{"CRC_W_D_W", 0xffff8000, 0x00258000},
{"CRC_W_H_W", 0xffff8000, 0x00248000},
{"CRC_W_W_W", 0xffff8000, 0x00250000},
{"CSRRD", 0xff0003e0, 0x04000000},
{"CSRWR", 0xff0003e0, 0x04000020},
{"CSRXCHG", 0xff000000, 0x04000000},
{"CTO_D", 0xfffffc00, 0x00002800},
{"CTO_W", 0xfffffc00, 0x00001800},
{"CTZ_D", 0xfffffc00, 0x00002c00},
{"CTZ_W", 0xfffffc00, 0x00001c00},
{"DBAR", 0xffff8000, 0x38720000},
{"DBCL", 0xffff8000, 0x002a8000},
{"DIV_D", 0xffff8000, 0x00220000},
{"DIV_DU", 0xffff8000, 0x00230000},
{"DIV_W", 0xffff8000, 0x00200000},
{"DIV_WU", 0xffff8000, 0x00210000},
{"ERTN", 0xffffffff, 0x06483800},
{"EXT_W_B", 0xfffffc00, 0x00005c00},
{"EXT_W_H", 0xfffffc00, 0x00005800},
{"FABS_D", 0xfffffc00, 0x01140800},
{"FABS_S", 0xfffffc00, 0x01140400},
{"FADD_D", 0xffff8000, 0x01010000},
{"FADD_S", 0xffff8000, 0x01008000},
{"FCLASS_D", 0xfffffc00, 0x01143800},
{"FCLASS_S", 0xfffffc00, 0x01143400},
{"FCMP_CAF_D", 0xffff8018, 0x0c200000},
{"FCMP_CAF_S", 0xffff8018, 0x0c100000},
{"FCMP_CEQ_D", 0xffff8018, 0x0c220000},
{"FCMP_CEQ_S", 0xffff8018, 0x0c120000},
{"FCMP_CLE_D", 0xffff8018, 0x0c230000},
{"FCMP_CLE_S", 0xffff8018, 0x0c130000},
{"FCMP_CLT_D", 0xffff8018, 0x0c210000},
{"FCMP_CLT_S", 0xffff8018, 0x0c110000},
{"FCMP_CNE_D", 0xffff8018, 0x0c280000},
{"FCMP_CNE_S", 0xffff8018, 0x0c180000},
{"FCMP_COR_D", 0xffff8018, 0x0c2a0000},
{"FCMP_COR_S", 0xffff8018, 0x0c1a0000},
{"FCMP_CUEQ_D", 0xffff8018, 0x0c260000},
{"FCMP_CUEQ_S", 0xffff8018, 0x0c160000},
{"FCMP_CULE_D", 0xffff8018, 0x0c270000},
{"FCMP_CULE_S", 0xffff8018, 0x0c170000},
{"FCMP_CULT_D", 0xffff8018, 0x0c250000},
{"FCMP_CULT_S", 0xffff8018, 0x0c150000},
{"FCMP_CUNE_D", 0xffff8018, 0x0c2c0000},
{"FCMP_CUNE_S", 0xffff8018, 0x0c1c0000},
{"FCMP_CUN_D", 0xffff8018, 0x0c240000},
{"FCMP_CUN_S", 0xffff8018, 0x0c140000},
{"FCMP_SAF_D", 0xffff8018, 0x0c208000},
{"FCMP_SAF_S", 0xffff8018, 0x0c108000},
{"FCMP_SEQ_D", 0xffff8018, 0x0c228000},
{"FCMP_SEQ_S", 0xffff8018, 0x0c128000},
{"FCMP_SLE_D", 0xffff8018, 0x0c238000},
{"FCMP_SLE_S", 0xffff8018, 0x0c138000},
{"FCMP_SLT_D", 0xffff8018, 0x0c218000},
{"FCMP_SLT_S", 0xffff8018, 0x0c118000},
{"FCMP_SNE_D", 0xffff8018, 0x0c288000},
{"FCMP_SNE_S", 0xffff8018, 0x0c188000},
{"FCMP_SOR_D", 0xffff8018, 0x0c2a8000},
{"FCMP_SOR_S", 0xffff8018, 0x0c1a8000},
{"FCMP_SUEQ_D", 0xffff8018, 0x0c268000},
{"FCMP_SUEQ_S", 0xffff8018, 0x0c168000},
{"FCMP_SULE_D", 0xffff8018, 0x0c278000},
{"FCMP_SULE_S", 0xffff8018, 0x0c178000},
{"FCMP_SULT_D", 0xffff8018, 0x0c258000},
{"FCMP_SULT_S", 0xffff8018, 0x0c158000},
{"FCMP_SUNE_D", 0xffff8018, 0x0c2c8000},
{"FCMP_SUNE_S", 0xffff8018, 0x0c1c8000},
{"FCMP_SUN_D", 0xffff8018, 0x0c248000},
{"FCMP_SUN_S", 0xffff8018, 0x0c148000},
{"FCOPYSIGN_D", 0xffff8000, 0x01130000},
{"FCOPYSIGN_S", 0xffff8000, 0x01128000},
{"FCVT_D_LD", 0xffff8000, 0x01150000},
{"FCVT_D_S", 0xfffffc00, 0x01192400},
{"FCVT_LD_D", 0xfffffc00, 0x0114e000},
{"FCVT_S_D", 0xfffffc00, 0x01191800},
{"FCVT_UD_D", 0xfffffc00, 0x0114e400},
{"FDIV_D", 0xffff8000, 0x01070000},
{"FDIV_S", 0xffff8000, 0x01068000},
{"FFINT_D_L", 0xfffffc00, 0x011d2800},
{"FFINT_D_W", 0xfffffc00, 0x011d2000},
{"FFINT_S_L", 0xfffffc00, 0x011d1800},
{"FFINT_S_W", 0xfffffc00, 0x011d1000},
{"FLDGT_D", 0xffff8000, 0x38748000},
{"FLDGT_S", 0xffff8000, 0x38740000},
{"FLDLE_D", 0xffff8000, 0x38758000},
{"FLDLE_S", 0xffff8000, 0x38750000},
{"FLDX_D", 0xffff8000, 0x38340000},
{"FLDX_S", 0xffff8000, 0x38300000},
{"FLD_D", 0xffc00000, 0x2b800000},
{"FLD_S", 0xffc00000, 0x2b000000},
{"FLOGB_D", 0xfffffc00, 0x01142800},
{"FLOGB_S", 0xfffffc00, 0x01142400},
{"FMADD_D", 0xfff00000, 0x08200000},
{"FMADD_S", 0xfff00000, 0x08100000},
{"FMAXA_D", 0xffff8000, 0x010d0000},
{"FMAXA_S", 0xffff8000, 0x010c8000},
{"FMAX_D", 0xffff8000, 0x01090000},
{"FMAX_S", 0xffff8000, 0x01088000},
{"FMINA_D", 0xffff8000, 0x010f0000},
{"FMINA_S", 0xffff8000, 0x010e8000},
{"FMIN_D", 0xffff8000, 0x010b0000},
{"FMIN_S", 0xffff8000, 0x010a8000},
{"FMOV_D", 0xfffffc00, 0x01149800},
{"FMOV_S", 0xfffffc00, 0x01149400},
{"FMSUB_D", 0xfff00000, 0x08600000},
{"FMSUB_S", 0xfff00000, 0x08500000},
{"FMUL_D", 0xffff8000, 0x01050000},
{"FMUL_S", 0xffff8000, 0x01048000},
{"FNEG_D", 0xfffffc00, 0x01141800},
{"FNEG_S", 0xfffffc00, 0x01141400},
{"FNMADD_D", 0xfff00000, 0x08a00000},
{"FNMADD_S", 0xfff00000, 0x08900000},
{"FNMSUB_D", 0xfff00000, 0x08e00000},
{"FNMSUB_S", 0xfff00000, 0x08d00000},
{"FRECIPE_D", 0xfffffc00, 0x01147800},
{"FRECIPE_S", 0xfffffc00, 0x01147400},
{"FRECIP_D", 0xfffffc00, 0x01145800},
{"FRECIP_S", 0xfffffc00, 0x01145400},
{"FRINT_D", 0xfffffc00, 0x011e4800},
{"FRINT_S", 0xfffffc00, 0x011e4400},
{"FRSQRTE_D", 0xfffffc00, 0x01148800},
{"FRSQRTE_S", 0xfffffc00, 0x01148400},
{"FRSQRT_D", 0xfffffc00, 0x01146800},
{"FRSQRT_S", 0xfffffc00, 0x01146400},
{"FSCALEB_D", 0xffff8000, 0x01110000},
{"FSCALEB_S", 0xffff8000, 0x01108000},
{"FSEL_xS", 0xfffc0000, 0x0d000000},
{"FSQRT_D", 0xfffffc00, 0x01144800},
{"FSQRT_S", 0xfffffc00, 0x01144400},
{"FSTGT_D", 0xffff8000, 0x38768000},
{"FSTGT_S", 0xffff8000, 0x38760000},
{"FSTLE_D", 0xffff8000, 0x38778000},
{"FSTLE_S", 0xffff8000, 0x38770000},
{"FSTX_D", 0xffff8000, 0x383c0000},
{"FSTX_S", 0xffff8000, 0x38380000},
{"FST_D", 0xffc00000, 0x2bc00000},
{"FST_S", 0xffc00000, 0x2b400000},
{"FSUB_D", 0xffff8000, 0x01030000},
{"FSUB_S", 0xffff8000, 0x01028000},
{"FTINTRM_L_D", 0xfffffc00, 0x011a2800},
{"FTINTRM_L_S", 0xfffffc00, 0x011a2400},
{"FTINTRM_W_D", 0xfffffc00, 0x011a0800},
{"FTINTRM_W_S", 0xfffffc00, 0x011a0400},
{"FTINTRNE_L_D", 0xfffffc00, 0x011ae800},
{"FTINTRNE_L_S", 0xfffffc00, 0x011ae400},
{"FTINTRNE_W_D", 0xfffffc00, 0x011ac800},
{"FTINTRNE_W_S", 0xfffffc00, 0x011ac400},
{"FTINTRP_L_D", 0xfffffc00, 0x011a6800},
{"FTINTRP_L_S", 0xfffffc00, 0x011a6400},
{"FTINTRP_W_D", 0xfffffc00, 0x011a4800},
{"FTINTRP_W_S", 0xfffffc00, 0x011a4400},
{"FTINTRZ_L_D", 0xfffffc00, 0x011aa800},
{"FTINTRZ_L_S", 0xfffffc00, 0x011aa400},
{"FTINTRZ_W_D", 0xfffffc00, 0x011a8800},
{"FTINTRZ_W_S", 0xfffffc00, 0x011a8400},
{"FTINT_L_D", 0xfffffc00, 0x011b2800},
{"FTINT_L_S", 0xfffffc00, 0x011b2400},
{"FTINT_W_D", 0xfffffc00, 0x011b0800},
{"FTINT_W_S", 0xfffffc00, 0x011b0400},
{"GCSRRD", 0xff0003e0, 0x05000000},
{"GCSRWR", 0xff0003e0, 0x05000020},
{"GCSRXCHG", 0xff000000, 0x05000000},
{"GTLBFLUSH", 0xffffffff, 0x06482401},
{"HVCL", 0xffff8000, 0x002b8000},
{"IBAR", 0xffff8000, 0x38728000},
{"IDLE", 0xffff8000, 0x06488000},
{"INVTLB", 0xffff8000, 0x06498000},
{"IOCSRRD_B", 0xfffffc00, 0x06480000},
{"IOCSRRD_D", 0xfffffc00, 0x06480c00},
{"IOCSRRD_H", 0xfffffc00, 0x06480400},
{"IOCSRRD_W", 0xfffffc00, 0x06480800},
{"IOCSRWR_B", 0xfffffc00, 0x06481000},
{"IOCSRWR_D", 0xfffffc00, 0x06481c00},
{"IOCSRWR_H", 0xfffffc00, 0x06481400},
{"IOCSRWR_W", 0xfffffc00, 0x06481800},
{"JIRL", 0xfc000000, 0x4c000000},
{"JISCR0", 0xfc0003e0, 0x48000200},
{"JISCR1", 0xfc0003e0, 0x48000300},
{"LDDIR", 0xfffc0000, 0x06400000},
{"LDGT_B", 0xffff8000, 0x38780000},
{"LDGT_D", 0xffff8000, 0x38798000},
{"LDGT_H", 0xffff8000, 0x38788000},
{"LDGT_W", 0xffff8000, 0x38790000},
{"LDLE_B", 0xffff8000, 0x387a0000},
{"LDLE_D", 0xffff8000, 0x387b8000},
{"LDLE_H", 0xffff8000, 0x387a8000},
{"LDLE_W", 0xffff8000, 0x387b0000},
{"LDL_D", 0xffc00000, 0x2e800000},
{"LDL_W", 0xffc00000, 0x2e000000},
{"LDPTE", 0xfffc001f, 0x06440000},
{"LDPTR_D", 0xff000000, 0x26000000},
{"LDPTR_W", 0xff000000, 0x24000000},
{"LDR_D", 0xffc00000, 0x2ec00000},
{"LDR_W", 0xffc00000, 0x2e400000},
{"LDX_B", 0xffff8000, 0x38000000},
{"LDX_BU", 0xffff8000, 0x38200000},
{"LDX_D", 0xffff8000, 0x380c0000},
{"LDX_H", 0xffff8000, 0x38040000},
{"LDX_HU", 0xffff8000, 0x38240000},
{"LDX_W", 0xffff8000, 0x38080000},
{"LDX_WU", 0xffff8000, 0x38280000},
{"LD_B", 0xffc00000, 0x28000000},
{"LD_BU", 0xffc00000, 0x2a000000},
{"LD_D", 0xffc00000, 0x28c00000},
{"LD_H", 0xffc00000, 0x28400000},
{"LD_HU", 0xffc00000, 0x2a400000},
{"LD_W", 0xffc00000, 0x28800000},
{"LD_WU", 0xffc00000, 0x2a800000},
{"LLACQ_D", 0xfffffc00, 0x38578800},
{"LLACQ_W", 0xfffffc00, 0x38578000},
{"LL_D", 0xff000000, 0x22000000},
{"LL_W", 0xff000000, 0x20000000},
{"LU12I_W", 0xfe000000, 0x14000000},
{"LU32I_D", 0xfe000000, 0x16000000},
{"LU52I_D", 0xffc00000, 0x03000000},
{"MASKEQZ", 0xffff8000, 0x00130000},
{"MASKNEZ", 0xffff8000, 0x00138000},
{"MOD_D", 0xffff8000, 0x00228000},
{"MOD_DU", 0xffff8000, 0x00238000},
{"MOD_W", 0xffff8000, 0x00208000},
{"MOD_WU", 0xffff8000, 0x00218000},
{"MOVCF2FR_xS", 0xffffff00, 0x0114d400},
{"MOVCF2GR", 0xffffff00, 0x0114dc00},
{"MOVFCSR2GR", 0xffffff80, 0x0114c800},
{"MOVFR2CF_xS", 0xfffffc18, 0x0114d000},
{"MOVFR2GR_D", 0xfffffc00, 0x0114b800},
{"MOVFR2GR_S", 0xfffffc00, 0x0114b400},
{"MOVFRH2GR_S", 0xfffffc00, 0x0114bc00},
{"MOVGR2CF", 0xfffffc18, 0x0114d800},
{"MOVGR2FCSR", 0xfffffc1c, 0x0114c000},
{"MOVGR2FRH_W", 0xfffffc00, 0x0114ac00},
{"MOVGR2FR_D", 0xfffffc00, 0x0114a800},
{"MOVGR2FR_W", 0xfffffc00, 0x0114a400},
{"MOVGR2SCR", 0xfffffc1c, 0x00000800},
{"MOVSCR2GR", 0xffffff80, 0x00000c00},
{"MULH_D", 0xffff8000, 0x001e0000},
{"MULH_DU", 0xffff8000, 0x001e8000},
{"MULH_W", 0xffff8000, 0x001c8000},
{"MULH_WU", 0xffff8000, 0x001d0000},
{"MULW_D_W", 0xffff8000, 0x001f0000},
{"MULW_D_WU", 0xffff8000, 0x001f8000},
{"MUL_D", 0xffff8000, 0x001d8000},
{"MUL_W", 0xffff8000, 0x001c0000},
{"NOR", 0xffff8000, 0x00140000},
{"OR", 0xffff8000, 0x00150000},
{"ORI", 0xffc00000, 0x03800000},
{"ORN", 0xffff8000, 0x00160000},
{"PCADDI", 0xfe000000, 0x18000000},
{"PCADDU12I", 0xfe000000, 0x1c000000},
{"PCADDU18I", 0xfe000000, 0x1e000000},
{"PCALAU12I", 0xfe000000, 0x1a000000},
{"PRELD", 0xffc00000, 0x2ac00000},
{"PRELDX", 0xffff8000, 0x382c0000},
{"RCRI_B", 0xffffe000, 0x00502000},
{"RCRI_D", 0xffff0000, 0x00510000},
{"RCRI_H", 0xffffc000, 0x00504000},
{"RCRI_W", 0xffff8000, 0x00508000},
{"RCR_B", 0xffff8000, 0x00340000},
{"RCR_D", 0xffff8000, 0x00358000},
{"RCR_H", 0xffff8000, 0x00348000},
{"RCR_W", 0xffff8000, 0x00350000},
{"RDTIMEH_W", 0xfffffc00, 0x00006400},
{"RDTIMEL_W", 0xfffffc00, 0x00006000},
{"RDTIME_D", 0xfffffc00, 0x00006800},
{"REVB_2H", 0xfffffc00, 0x00003000},
{"REVB_2W", 0xfffffc00, 0x00003800},
{"REVB_4H", 0xfffffc00, 0x00003400},
{"REVB_D", 0xfffffc00, 0x00003c00},
{"REVH_2W", 0xfffffc00, 0x00004000},
{"REVH_D", 0xfffffc00, 0x00004400},
{"ROTRI_B", 0xffffe000, 0x004c2000},
{"ROTRI_D", 0xffff0000, 0x004d0000},
{"ROTRI_H", 0xffffc000, 0x004c4000},
{"ROTRI_W", 0xffff8000, 0x004c8000},
{"ROTR_B", 0xffff8000, 0x001a0000},
{"ROTR_D", 0xffff8000, 0x001b8000},
{"ROTR_H", 0xffff8000, 0x001a8000},
{"ROTR_W", 0xffff8000, 0x001b0000},
{"SBC_B", 0xffff8000, 0x00320000},
{"SBC_D", 0xffff8000, 0x00338000},
{"SBC_H", 0xffff8000, 0x00328000},
{"SBC_W", 0xffff8000, 0x00330000},
{"SCREL_D", 0xfffffc00, 0x38578c00},
{"SCREL_W", 0xfffffc00, 0x38578400},
{"SC_D", 0xff000000, 0x23000000},
{"SC_Q", 0xffff8000, 0x38570000},
{"SC_W", 0xff000000, 0x21000000},
{"SETARMJ", 0xffffc3e0, 0x0036c000},
{"SETX86J", 0xffffc3e0, 0x00368000},
{"SETX86LOOPE", 0xfffffc00, 0x00007800},
{"SETX86LOOPNE", 0xfffffc00, 0x00007c00},
{"SLLI_D", 0xffff0000, 0x00410000},
{"SLLI_W", 0xffff8000, 0x00408000},
{"SLL_D", 0xffff8000, 0x00188000},
{"SLL_W", 0xffff8000, 0x00170000},
{"SLT", 0xffff8000, 0x00120000},
{"SLTI", 0xffc00000, 0x02000000},
{"SLTU", 0xffff8000, 0x00128000},
{"SLTUI", 0xffc00000, 0x02400000},
{"SRAI_D", 0xffff0000, 0x00490000},
{"SRAI_W", 0xffff8000, 0x00488000},
{"SRA_D", 0xffff8000, 0x00198000},
{"SRA_W", 0xffff8000, 0x00180000},
{"SRLI_D", 0xffff0000, 0x00450000},
{"SRLI_W", 0xffff8000, 0x00448000},
{"SRL_D", 0xffff8000, 0x00190000},
{"SRL_W", 0xffff8000, 0x00178000},
{"STGT_B", 0xffff8000, 0x387c0000},
{"STGT_D", 0xffff8000, 0x387d8000},
{"STGT_H", 0xffff8000, 0x387c8000},
{"STGT_W", 0xffff8000, 0x387d0000},
{"STLE_B", 0xffff8000, 0x387e0000},
{"STLE_D", 0xffff8000, 0x387f8000},
{"STLE_H", 0xffff8000, 0x387e8000},
{"STLE_W", 0xffff8000, 0x387f0000},
{"STL_D", 0xffc00000, 0x2f800000},
{"STL_W", 0xffc00000, 0x2f000000},
{"STPTR_D", 0xff000000, 0x27000000},
{"STPTR_W", 0xff000000, 0x25000000},
{"STR_D", 0xffc00000, 0x2fc00000},
{"STR_W", 0xffc00000, 0x2f400000},
{"STX_B", 0xffff8000, 0x38100000},
{"STX_D", 0xffff8000, 0x381c0000},
{"STX_H", 0xffff8000, 0x38140000},
{"STX_W", 0xffff8000, 0x38180000},
{"ST_B", 0xffc00000, 0x29000000},
{"ST_D", 0xffc00000, 0x29c00000},
{"ST_H", 0xffc00000, 0x29400000},
{"ST_W", 0xffc00000, 0x29800000},
{"SUB_D", 0xffff8000, 0x00118000},
{"SUB_W", 0xffff8000, 0x00110000},
{"SYSCALL", 0xffff8000, 0x002b0000},
{"TLBCLR", 0xffffffff, 0x06482000},
{"TLBFILL", 0xffffffff, 0x06483400},
{"TLBFLUSH", 0xffffffff, 0x06482400},
{"TLBRD", 0xffffffff, 0x06482c00},
{"TLBSRCH", 0xffffffff, 0x06482800},
{"TLBWR", 0xffffffff, 0x06483000},
{"VABSD_B", 0xffff8000, 0x70600000},
{"VABSD_BU", 0xffff8000, 0x70620000},
{"VABSD_D", 0xffff8000, 0x70618000},
{"VABSD_DU", 0xffff8000, 0x70638000},
{"VABSD_H", 0xffff8000, 0x70608000},
{"VABSD_HU", 0xffff8000, 0x70628000},
{"VABSD_W", 0xffff8000, 0x70610000},
{"VABSD_WU", 0xffff8000, 0x70630000},
{"VADDA_B", 0xffff8000, 0x705c0000},
{"VADDA_D", 0xffff8000, 0x705d8000},
{"VADDA_H", 0xffff8000, 0x705c8000},
{"VADDA_W", 0xffff8000, 0x705d0000},
{"VADDI_BU", 0xffff8000, 0x728a0000},
{"VADDI_DU", 0xffff8000, 0x728b8000},
{"VADDI_HU", 0xffff8000, 0x728a8000},
{"VADDI_WU", 0xffff8000, 0x728b0000},
{"VADDWEV_D_W", 0xffff8000, 0x701f0000},
{"VADDWEV_D_WU", 0xffff8000, 0x702f0000},
{"VADDWEV_D_WU_W", 0xffff8000, 0x703f0000},
{"VADDWEV_H_B", 0xffff8000, 0x701e0000},
{"VADDWEV_H_BU", 0xffff8000, 0x702e0000},
{"VADDWEV_H_BU_B", 0xffff8000, 0x703e0000},
{"VADDWEV_Q_D", 0xffff8000, 0x701f8000},
{"VADDWEV_Q_DU", 0xffff8000, 0x702f8000},
{"VADDWEV_Q_DU_D", 0xffff8000, 0x703f8000},
{"VADDWEV_W_H", 0xffff8000, 0x701e8000},
{"VADDWEV_W_HU", 0xffff8000, 0x702e8000},
{"VADDWEV_W_HU_H", 0xffff8000, 0x703e8000},
{"VADDWOD_D_W", 0xffff8000, 0x70230000},
{"VADDWOD_D_WU", 0xffff8000, 0x70330000},
{"VADDWOD_D_WU_W", 0xffff8000, 0x70410000},
{"VADDWOD_H_B", 0xffff8000, 0x70220000},
{"VADDWOD_H_BU", 0xffff8000, 0x70320000},
{"VADDWOD_H_BU_B", 0xffff8000, 0x70400000},
{"VADDWOD_Q_D", 0xffff8000, 0x70238000},
{"VADDWOD_Q_DU", 0xffff8000, 0x70338000},
{"VADDWOD_Q_DU_D", 0xffff8000, 0x70418000},
{"VADDWOD_W_H", 0xffff8000, 0x70228000},
{"VADDWOD_W_HU", 0xffff8000, 0x70328000},
{"VADDWOD_W_HU_H", 0xffff8000, 0x70408000},
{"VADD_B", 0xffff8000, 0x700a0000},
{"VADD_D", 0xffff8000, 0x700b8000},
{"VADD_H", 0xffff8000, 0x700a8000},
{"VADD_Q", 0xffff8000, 0x712d0000},
{"VADD_W", 0xffff8000, 0x700b0000},
{"VANDI_B", 0xfffc0000, 0x73d00000},
{"VANDN_V", 0xffff8000, 0x71280000},
{"VAND_V", 0xffff8000, 0x71260000},
{"VAVGR_B", 0xffff8000, 0x70680000},
{"VAVGR_BU", 0xffff8000, 0x706a0000},
{"VAVGR_D", 0xffff8000, 0x70698000},
{"VAVGR_DU", 0xffff8000, 0x706b8000},
{"VAVGR_H", 0xffff8000, 0x70688000},
{"VAVGR_HU", 0xffff8000, 0x706a8000},
{"VAVGR_W", 0xffff8000, 0x70690000},
{"VAVGR_WU", 0xffff8000, 0x706b0000},
{"VAVG_B", 0xffff8000, 0x70640000},
{"VAVG_BU", 0xffff8000, 0x70660000},
{"VAVG_D", 0xffff8000, 0x70658000},
{"VAVG_DU", 0xffff8000, 0x70678000},
{"VAVG_H", 0xffff8000, 0x70648000},
{"VAVG_HU", 0xffff8000, 0x70668000},
{"VAVG_W", 0xffff8000, 0x70650000},
{"VAVG_WU", 0xffff8000, 0x70670000},
{"VBITCLRI_B", 0xffffe000, 0x73102000},
{"VBITCLRI_D", 0xffff0000, 0x73110000},
{"VBITCLRI_H", 0xffffc000, 0x73104000},
{"VBITCLRI_W", 0xffff8000, 0x73108000},
{"VBITCLR_B", 0xffff8000, 0x710c0000},
{"VBITCLR_D", 0xffff8000, 0x710d8000},
{"VBITCLR_H", 0xffff8000, 0x710c8000},
{"VBITCLR_W", 0xffff8000, 0x710d0000},
{"VBITREVI_B", 0xffffe000, 0x73182000},
{"VBITREVI_D", 0xffff0000, 0x73190000},
{"VBITREVI_H", 0xffffc000, 0x73184000},
{"VBITREVI_W", 0xffff8000, 0x73188000},
{"VBITREV_B", 0xffff8000, 0x71100000},
{"VBITREV_D", 0xffff8000, 0x71118000},
{"VBITREV_H", 0xffff8000, 0x71108000},
{"VBITREV_W", 0xffff8000, 0x71110000},
{"VBITSELI_B", 0xfffc0000, 0x73c40000},
{"VBITSEL_V", 0xfff00000, 0x0d100000},
{"VBITSETI_B", 0xffffe000, 0x73142000},
{"VBITSETI_D", 0xffff0000, 0x73150000},
{"VBITSETI_H", 0xffffc000, 0x73144000},
{"VBITSETI_W", 0xffff8000, 0x73148000},
{"VBITSET_B", 0xffff8000, 0x710e0000},
{"VBITSET_D", 0xffff8000, 0x710f8000},
{"VBITSET_H", 0xffff8000, 0x710e8000},
{"VBITSET_W", 0xffff8000, 0x710f0000},
{"VBSLL_V", 0xffff8000, 0x728e0000},
{"VBSRL_V", 0xffff8000, 0x728e8000},
{"VCLO_B", 0xfffffc00, 0x729c0000},
{"VCLO_D", 0xfffffc00, 0x729c0c00},
{"VCLO_H", 0xfffffc00, 0x729c0400},
{"VCLO_W", 0xfffffc00, 0x729c0800},
{"VCLZ_B", 0xfffffc00, 0x729c1000},
{"VCLZ_D", 0xfffffc00, 0x729c1c00},
{"VCLZ_H", 0xfffffc00, 0x729c1400},
{"VCLZ_W", 0xfffffc00, 0x729c1800},
{"VDIV_B", 0xffff8000, 0x70e00000},
{"VDIV_BU", 0xffff8000, 0x70e40000},
{"VDIV_D", 0xffff8000, 0x70e18000},
{"VDIV_DU", 0xffff8000, 0x70e58000},
{"VDIV_H", 0xffff8000, 0x70e08000},
{"VDIV_HU", 0xffff8000, 0x70e48000},
{"VDIV_W", 0xffff8000, 0x70e10000},
{"VDIV_WU", 0xffff8000, 0x70e50000},
{"VEXT2XV_DU_BU", 0xfffffc00, 0x769f3000},
{"VEXT2XV_DU_HU", 0xfffffc00, 0x769f3800},
{"VEXT2XV_DU_WU", 0xfffffc00, 0x769f3c00},
{"VEXT2XV_D_B", 0xfffffc00, 0x769f1800},
{"VEXT2XV_D_H", 0xfffffc00, 0x769f2000},
{"VEXT2XV_D_W", 0xfffffc00, 0x769f2400},
{"VEXT2XV_HU_BU", 0xfffffc00, 0x769f2800},
{"VEXT2XV_H_B", 0xfffffc00, 0x769f1000},
{"VEXT2XV_WU_BU", 0xfffffc00, 0x769f2c00},
{"VEXT2XV_WU_HU", 0xfffffc00, 0x769f3400},
{"VEXT2XV_W_B", 0xfffffc00, 0x769f1400},
{"VEXT2XV_W_H", 0xfffffc00, 0x769f1c00},
{"VEXTH_DU_WU", 0xfffffc00, 0x729ef800},
{"VEXTH_D_W", 0xfffffc00, 0x729ee800},
{"VEXTH_HU_BU", 0xfffffc00, 0x729ef000},
{"VEXTH_H_B", 0xfffffc00, 0x729ee000},
{"VEXTH_QU_DU", 0xfffffc00, 0x729efc00},
{"VEXTH_Q_D", 0xfffffc00, 0x729eec00},
{"VEXTH_WU_HU", 0xfffffc00, 0x729ef400},
{"VEXTH_W_H", 0xfffffc00, 0x729ee400},
{"VEXTL_QU_DU", 0xfffffc00, 0x730d0000},
{"VEXTL_Q_D", 0xfffffc00, 0x73090000},
{"VEXTRINS_B", 0xfffc0000, 0x738c0000},
{"VEXTRINS_D", 0xfffc0000, 0x73800000},
{"VEXTRINS_H", 0xfffc0000, 0x73880000},
{"VEXTRINS_W", 0xfffc0000, 0x73840000},
{"VFADD_D", 0xffff8000, 0x71310000},
{"VFADD_S", 0xffff8000, 0x71308000},
{"VFCLASS_D", 0xfffffc00, 0x729cd800},
{"VFCLASS_S", 0xfffffc00, 0x729cd400},
{"VFCMP_CAF_D", 0xffff8000, 0x0c600000},
{"VFCMP_CAF_S", 0xffff8000, 0x0c500000},
{"VFCMP_CEQ_D", 0xffff8000, 0x0c620000},
{"VFCMP_CEQ_S", 0xffff8000, 0x0c520000},
{"VFCMP_CLE_D", 0xffff8000, 0x0c630000},
{"VFCMP_CLE_S", 0xffff8000, 0x0c530000},
{"VFCMP_CLT_D", 0xffff8000, 0x0c610000},
{"VFCMP_CLT_S", 0xffff8000, 0x0c510000},
{"VFCMP_CNE_D", 0xffff8000, 0x0c680000},
{"VFCMP_CNE_S", 0xffff8000, 0x0c580000},
{"VFCMP_COR_D", 0xffff8000, 0x0c6a0000},
{"VFCMP_COR_S", 0xffff8000, 0x0c5a0000},
{"VFCMP_CUEQ_D", 0xffff8000, 0x0c660000},
{"VFCMP_CUEQ_S", 0xffff8000, 0x0c560000},
{"VFCMP_CULE_D", 0xffff8000, 0x0c670000},
{"VFCMP_CULE_S", 0xffff8000, 0x0c570000},
{"VFCMP_CULT_D", 0xffff8000, 0x0c650000},
{"VFCMP_CULT_S", 0xffff8000, 0x0c550000},
{"VFCMP_CUNE_D", 0xffff8000, 0x0c6c0000},
{"VFCMP_CUNE_S", 0xffff8000, 0x0c5c0000},
{"VFCMP_CUN_D", 0xffff8000, 0x0c640000},
{"VFCMP_CUN_S", 0xffff8000, 0x0c540000},
{"VFCMP_SAF_D", 0xffff8000, 0x0c608000},
{"VFCMP_SAF_S", 0xffff8000, 0x0c508000},
{"VFCMP_SEQ_D", 0xffff8000, 0x0c628000},
{"VFCMP_SEQ_S", 0xffff8000, 0x0c528000},
{"VFCMP_SLE_D", 0xffff8000, 0x0c638000},
{"VFCMP_SLE_S", 0xffff8000, 0x0c538000},
{"VFCMP_SLT_D", 0xffff8000, 0x0c618000},
{"VFCMP_SLT_S", 0xffff8000, 0x0c518000},
{"VFCMP_SNE_D", 0xffff8000, 0x0c688000},
{"VFCMP_SNE_S", 0xffff8000, 0x0c588000},
{"VFCMP_SOR_D", 0xffff8000, 0x0c6a8000},
{"VFCMP_SOR_S", 0xffff8000, 0x0c5a8000},
{"VFCMP_SUEQ_D", 0xffff8000, 0x0c668000},
{"VFCMP_SUEQ_S", 0xffff8000, 0x0c568000},
{"VFCMP_SULE_D", 0xffff8000, 0x0c678000},
{"VFCMP_SULE_S", 0xffff8000, 0x0c578000},
{"VFCMP_SULT_D", 0xffff8000, 0x0c658000},
{"VFCMP_SULT_S", 0xffff8000, 0x0c558000},
{"VFCMP_SUNE_D", 0xffff8000, 0x0c6c8000},
{"VFCMP_SUNE_S", 0xffff8000, 0x0c5c8000},
{"VFCMP_SUN_D", 0xffff8000, 0x0c648000},
{"VFCMP_SUN_S", 0xffff8000, 0x0c548000},
{"VFCVTH_D_S", 0xfffffc00, 0x729df400},
{"VFCVTH_S_H", 0xfffffc00, 0x729dec00},
{"VFCVTL_D_S", 0xfffffc00, 0x729df000},
{"VFCVTL_S_H", 0xfffffc00, 0x729de800},
{"VFCVT_H_S", 0xffff8000, 0x71460000},
{"VFCVT_S_D", 0xffff8000, 0x71468000},
{"VFDIV_D", 0xffff8000, 0x713b0000},
{"VFDIV_S", 0xffff8000, 0x713a8000},
{"VFFINTH_D_W", 0xfffffc00, 0x729e1400},
{"VFFINTL_D_W", 0xfffffc00, 0x729e1000},
{"VFFINT_D_L", 0xfffffc00, 0x729e0800},
{"VFFINT_D_LU", 0xfffffc00, 0x729e0c00},
{"VFFINT_S_L", 0xffff8000, 0x71480000},
{"VFFINT_S_W", 0xfffffc00, 0x729e0000},
{"VFFINT_S_WU", 0xfffffc00, 0x729e0400},
{"VFLOGB_D", 0xfffffc00, 0x729cc800},
{"VFLOGB_S", 0xfffffc00, 0x729cc400},
{"VFMADD_D", 0xfff00000, 0x09200000},
{"VFMADD_S", 0xfff00000, 0x09100000},
{"VFMAXA_D", 0xffff8000, 0x71410000},
{"VFMAXA_S", 0xffff8000, 0x71408000},
{"VFMAX_D", 0xffff8000, 0x713d0000},
{"VFMAX_S", 0xffff8000, 0x713c8000},
{"VFMINA_D", 0xffff8000, 0x71430000},
{"VFMINA_S", 0xffff8000, 0x71428000},
{"VFMIN_D", 0xffff8000, 0x713f0000},
{"VFMIN_S", 0xffff8000, 0x713e8000},
{"VFMSUB_D", 0xfff00000, 0x09600000},
{"VFMSUB_S", 0xfff00000, 0x09500000},
{"VFMUL_D", 0xffff8000, 0x71390000},
{"VFMUL_S", 0xffff8000, 0x71388000},
{"VFNMADD_D", 0xfff00000, 0x09a00000},
{"VFNMADD_S", 0xfff00000, 0x09900000},
{"VFNMSUB_D", 0xfff00000, 0x09e00000},
{"VFNMSUB_S", 0xfff00000, 0x09d00000},
{"VFRECIPE_D", 0xfffffc00, 0x729d1800},
{"VFRECIPE_S", 0xfffffc00, 0x729d1400},
{"VFRECIP_D", 0xfffffc00, 0x729cf800},
{"VFRECIP_S", 0xfffffc00, 0x729cf400},
{"VFRINTRM_D", 0xfffffc00, 0x729d4800},
{"VFRINTRM_S", 0xfffffc00, 0x729d4400},
{"VFRINTRNE_D", 0xfffffc00, 0x729d7800},
{"VFRINTRNE_S", 0xfffffc00, 0x729d7400},
{"VFRINTRP_D", 0xfffffc00, 0x729d5800},
{"VFRINTRP_S", 0xfffffc00, 0x729d5400},
{"VFRINTRZ_D", 0xfffffc00, 0x729d6800},
{"VFRINTRZ_S", 0xfffffc00, 0x729d6400},
{"VFRINT_D", 0xfffffc00, 0x729d3800},
{"VFRINT_S", 0xfffffc00, 0x729d3400},
{"VFRSQRTE_D", 0xfffffc00, 0x729d2800},
{"VFRSQRTE_S", 0xfffffc00, 0x729d2400},
{"VFRSQRT_D", 0xfffffc00, 0x729d0800},
{"VFRSQRT_S", 0xfffffc00, 0x729d0400},
{"VFRSTPI_B", 0xffff8000, 0x729a0000},
{"VFRSTPI_H", 0xffff8000, 0x729a8000},
{"VFRSTP_B", 0xffff8000, 0x712b0000},
{"VFRSTP_H", 0xffff8000, 0x712b8000},
{"VFSQRT_D", 0xfffffc00, 0x729ce800},
{"VFSQRT_S", 0xfffffc00, 0x729ce400},
{"VFSUB_D", 0xffff8000, 0x71330000},
{"VFSUB_S", 0xffff8000, 0x71328000},
{"VFTINTH_L_S", 0xfffffc00, 0x729e8400},
{"VFTINTL_L_S", 0xfffffc00, 0x729e8000},
{"VFTINTRMH_L_S", 0xfffffc00, 0x729e8c00},
{"VFTINTRML_L_S", 0xfffffc00, 0x729e8800},
{"VFTINTRM_L_D", 0xfffffc00, 0x729e3c00},
{"VFTINTRM_W_D", 0xffff8000, 0x714a0000},
{"VFTINTRM_W_S", 0xfffffc00, 0x729e3800},
{"VFTINTRNEH_L_S", 0xfffffc00, 0x729ea400},
{"VFTINTRNEL_L_S", 0xfffffc00, 0x729ea000},
{"VFTINTRNE_L_D", 0xfffffc00, 0x729e5400},
{"VFTINTRNE_W_D", 0xffff8000, 0x714b8000},
{"VFTINTRNE_W_S", 0xfffffc00, 0x729e5000},
{"VFTINTRPH_L_S", 0xfffffc00, 0x729e9400},
{"VFTINTRPL_L_S", 0xfffffc00, 0x729e9000},
{"VFTINTRP_L_D", 0xfffffc00, 0x729e4400},
{"VFTINTRP_W_D", 0xffff8000, 0x714a8000},
{"VFTINTRP_W_S", 0xfffffc00, 0x729e4000},
{"VFTINTRZH_L_S", 0xfffffc00, 0x729e9c00},
{"VFTINTRZL_L_S", 0xfffffc00, 0x729e9800},
{"VFTINTRZ_LU_D", 0xfffffc00, 0x729e7400},
{"VFTINTRZ_L_D", 0xfffffc00, 0x729e4c00},
{"VFTINTRZ_WU_S", 0xfffffc00, 0x729e7000},
{"VFTINTRZ_W_D", 0xffff8000, 0x714b0000},
{"VFTINTRZ_W_S", 0xfffffc00, 0x729e4800},
{"VFTINT_LU_D", 0xfffffc00, 0x729e5c00},
{"VFTINT_L_D", 0xfffffc00, 0x729e3400},
{"VFTINT_WU_S", 0xfffffc00, 0x729e5800},
{"VFTINT_W_D", 0xffff8000, 0x71498000},
{"VFTINT_W_S", 0xfffffc00, 0x729e3000},
{"VHADDW_DU_WU", 0xffff8000, 0x70590000},
{"VHADDW_D_W", 0xffff8000, 0x70550000},
{"VHADDW_HU_BU", 0xffff8000, 0x70580000},
{"VHADDW_H_B", 0xffff8000, 0x70540000},
{"VHADDW_QU_DU", 0xffff8000, 0x70598000},
{"VHADDW_Q_D", 0xffff8000, 0x70558000},
{"VHADDW_WU_HU", 0xffff8000, 0x70588000},
{"VHADDW_W_H", 0xffff8000, 0x70548000},
{"VHSUBW_DU_WU", 0xffff8000, 0x705b0000},
{"VHSUBW_D_W", 0xffff8000, 0x70570000},
{"VHSUBW_HU_BU", 0xffff8000, 0x705a0000},
{"VHSUBW_H_B", 0xffff8000, 0x70560000},
{"VHSUBW_QU_DU", 0xffff8000, 0x705b8000},
{"VHSUBW_Q_D", 0xffff8000, 0x70578000},
{"VHSUBW_WU_HU", 0xffff8000, 0x705a8000},
{"VHSUBW_W_H", 0xffff8000, 0x70568000},
{"VILVH_B", 0xffff8000, 0x711c0000},
{"VILVH_D", 0xffff8000, 0x711d8000},
{"VILVH_H", 0xffff8000, 0x711c8000},
{"VILVH_W", 0xffff8000, 0x711d0000},
{"VILVL_B", 0xffff8000, 0x711a0000},
{"VILVL_D", 0xffff8000, 0x711b8000},
{"VILVL_H", 0xffff8000, 0x711a8000},
{"VILVL_W", 0xffff8000, 0x711b0000},
{"VINSGR2VR_B", 0xffffc000, 0x72eb8000},
{"VINSGR2VR_D", 0xfffff800, 0x72ebf000},
{"VINSGR2VR_H", 0xffffe000, 0x72ebc000},
{"VINSGR2VR_W", 0xfffff000, 0x72ebe000},
{"VLD", 0xffc00000, 0x2c000000},
{"VLDI", 0xfffc0000, 0x73e00000},
{"VLDREPL_B", 0xffc00000, 0x30800000},
{"VLDREPL_D", 0xfff80000, 0x30100000},
{"VLDREPL_H", 0xffe00000, 0x30400000},
{"VLDREPL_W", 0xfff00000, 0x30200000},
{"VLDX", 0xffff8000, 0x38400000},
{"VMADDWEV_D_W", 0xffff8000, 0x70ad0000},
{"VMADDWEV_D_WU", 0xffff8000, 0x70b50000},
{"VMADDWEV_D_WU_W", 0xffff8000, 0x70bd0000},
{"VMADDWEV_H_B", 0xffff8000, 0x70ac0000},
{"VMADDWEV_H_BU", 0xffff8000, 0x70b40000},
{"VMADDWEV_H_BU_B", 0xffff8000, 0x70bc0000},
{"VMADDWEV_Q_D", 0xffff8000, 0x70ad8000},
{"VMADDWEV_Q_DU", 0xffff8000, 0x70b58000},
{"VMADDWEV_Q_DU_D", 0xffff8000, 0x70bd8000},
{"VMADDWEV_W_H", 0xffff8000, 0x70ac8000},
{"VMADDWEV_W_HU", 0xffff8000, 0x70b48000},
{"VMADDWEV_W_HU_H", 0xffff8000, 0x70bc8000},
{"VMADDWOD_D_W", 0xffff8000, 0x70af0000},
{"VMADDWOD_D_WU", 0xffff8000, 0x70b70000},
{"VMADDWOD_D_WU_W", 0xffff8000, 0x70bf0000},
{"VMADDWOD_H_B", 0xffff8000, 0x70ae0000},
{"VMADDWOD_H_BU", 0xffff8000, 0x70b60000},
{"VMADDWOD_H_BU_B", 0xffff8000, 0x70be0000},
{"VMADDWOD_Q_D", 0xffff8000, 0x70af8000},
{"VMADDWOD_Q_DU", 0xffff8000, 0x70b78000},
{"VMADDWOD_Q_DU_D", 0xffff8000, 0x70bf8000},
{"VMADDWOD_W_H", 0xffff8000, 0x70ae8000},
{"VMADDWOD_W_HU", 0xffff8000, 0x70b68000},
{"VMADDWOD_W_HU_H", 0xffff8000, 0x70be8000},
{"VMADD_B", 0xffff8000, 0x70a80000},
{"VMADD_D", 0xffff8000, 0x70a98000},
{"VMADD_H", 0xffff8000, 0x70a88000},
{"VMADD_W", 0xffff8000, 0x70a90000},
{"VMAXI_B", 0xffff8000, 0x72900000},
{"VMAXI_BU", 0xffff8000, 0x72940000},
{"VMAXI_D", 0xffff8000, 0x72918000},
{"VMAXI_DU", 0xffff8000, 0x72958000},
{"VMAXI_H", 0xffff8000, 0x72908000},
{"VMAXI_HU", 0xffff8000, 0x72948000},
{"VMAXI_W", 0xffff8000, 0x72910000},
{"VMAXI_WU", 0xffff8000, 0x72950000},
{"VMAX_B", 0xffff8000, 0x70700000},
{"VMAX_BU", 0xffff8000, 0x70740000},
{"VMAX_D", 0xffff8000, 0x70718000},
{"VMAX_DU", 0xffff8000, 0x70758000},
{"VMAX_H", 0xffff8000, 0x70708000},
{"VMAX_HU", 0xffff8000, 0x70748000},
{"VMAX_W", 0xffff8000, 0x70710000},
{"VMAX_WU", 0xffff8000, 0x70750000},
{"VMINI_B", 0xffff8000, 0x72920000},
{"VMINI_BU", 0xffff8000, 0x72960000},
{"VMINI_D", 0xffff8000, 0x72938000},
{"VMINI_DU", 0xffff8000, 0x72978000},
{"VMINI_H", 0xffff8000, 0x72928000},
{"VMINI_HU", 0xffff8000, 0x72968000},
{"VMINI_W", 0xffff8000, 0x72930000},
{"VMINI_WU", 0xffff8000, 0x72970000},
{"VMIN_B", 0xffff8000, 0x70720000},
{"VMIN_BU", 0xffff8000, 0x70760000},
{"VMIN_D", 0xffff8000, 0x70738000},
{"VMIN_DU", 0xffff8000, 0x70778000},
{"VMIN_H", 0xffff8000, 0x70728000},
{"VMIN_HU", 0xffff8000, 0x70768000},
{"VMIN_W", 0xffff8000, 0x70730000},
{"VMIN_WU", 0xffff8000, 0x70770000},
{"VMOD_B", 0xffff8000, 0x70e20000},
{"VMOD_BU", 0xffff8000, 0x70e60000},
{"VMOD_D", 0xffff8000, 0x70e38000},
{"VMOD_DU", 0xffff8000, 0x70e78000},
{"VMOD_H", 0xffff8000, 0x70e28000},
{"VMOD_HU", 0xffff8000, 0x70e68000},
{"VMOD_W", 0xffff8000, 0x70e30000},
{"VMOD_WU", 0xffff8000, 0x70e70000},
{"VMSKGEZ_B", 0xfffffc00, 0x729c5000},
{"VMSKLTZ_B", 0xfffffc00, 0x729c4000},
{"VMSKLTZ_D", 0xfffffc00, 0x729c4c00},
{"VMSKLTZ_H", 0xfffffc00, 0x729c4400},
{"VMSKLTZ_W", 0xfffffc00, 0x729c4800},
{"VMSKNZ_B", 0xfffffc00, 0x729c6000},
{"VMSUB_B", 0xffff8000, 0x70aa0000},
{"VMSUB_D", 0xffff8000, 0x70ab8000},
{"VMSUB_H", 0xffff8000, 0x70aa8000},
{"VMSUB_W", 0xffff8000, 0x70ab0000},
{"VMUH_B", 0xffff8000, 0x70860000},
{"VMUH_BU", 0xffff8000, 0x70880000},
{"VMUH_D", 0xffff8000, 0x70878000},
{"VMUH_DU", 0xffff8000, 0x70898000},
{"VMUH_H", 0xffff8000, 0x70868000},
{"VMUH_HU", 0xffff8000, 0x70888000},
{"VMUH_W", 0xffff8000, 0x70870000},
{"VMUH_WU", 0xffff8000, 0x70890000},
{"VMULWEV_D_W", 0xffff8000, 0x70910000},
{"VMULWEV_D_WU", 0xffff8000, 0x70990000},
{"VMULWEV_D_WU_W", 0xffff8000, 0x70a10000},
{"VMULWEV_H_B", 0xffff8000, 0x70900000},
{"VMULWEV_H_BU", 0xffff8000, 0x70980000},
{"VMULWEV_H_BU_B", 0xffff8000, 0x70a00000},
{"VMULWEV_Q_D", 0xffff8000, 0x70918000},
{"VMULWEV_Q_DU", 0xffff8000, 0x70998000},
{"VMULWEV_Q_DU_D", 0xffff8000, 0x70a18000},
{"VMULWEV_W_H", 0xffff8000, 0x70908000},
{"VMULWEV_W_HU", 0xffff8000, 0x70988000},
{"VMULWEV_W_HU_H", 0xffff8000, 0x70a08000},
{"VMULWOD_D_W", 0xffff8000, 0x70930000},
{"VMULWOD_D_WU", 0xffff8000, 0x709b0000},
{"VMULWOD_D_WU_W", 0xffff8000, 0x70a30000},
{"VMULWOD_H_B", 0xffff8000, 0x70920000},
{"VMULWOD_H_BU", 0xffff8000, 0x709a0000},
{"VMULWOD_H_BU_B", 0xffff8000, 0x70a20000},
{"VMULWOD_Q_D", 0xffff8000, 0x70938000},
{"VMULWOD_Q_DU", 0xffff8000, 0x709b8000},
{"VMULWOD_Q_DU_D", 0xffff8000, 0x70a38000},
{"VMULWOD_W_H", 0xffff8000, 0x70928000},
{"VMULWOD_W_HU", 0xffff8000, 0x709a8000},
{"VMULWOD_W_HU_H", 0xffff8000, 0x70a28000},
{"VMUL_B", 0xffff8000, 0x70840000},
{"VMUL_D", 0xffff8000, 0x70858000},
{"VMUL_H", 0xffff8000, 0x70848000},
{"VMUL_W", 0xffff8000, 0x70850000},
{"VNEG_B", 0xfffffc00, 0x729c3000},
{"VNEG_D", 0xfffffc00, 0x729c3c00},
{"VNEG_H", 0xfffffc00, 0x729c3400},
{"VNEG_W", 0xfffffc00, 0x729c3800},
{"VNORI_B", 0xfffc0000, 0x73dc0000},
{"VNOR_V", 0xffff8000, 0x71278000},
{"VORI_B", 0xfffc0000, 0x73d40000},
{"VORN_V", 0xffff8000, 0x71288000},
{"VOR_V", 0xffff8000, 0x71268000},
{"VPACKEV_B", 0xffff8000, 0x71160000},
{"VPACKEV_D", 0xffff8000, 0x71178000},
{"VPACKEV_H", 0xffff8000, 0x71168000},
{"VPACKEV_W", 0xffff8000, 0x71170000},
{"VPACKOD_B", 0xffff8000, 0x71180000},
{"VPACKOD_D", 0xffff8000, 0x71198000},
{"VPACKOD_H", 0xffff8000, 0x71188000},
{"VPACKOD_W", 0xffff8000, 0x71190000},
{"VPCNT_B", 0xfffffc00, 0x729c2000},
{"VPCNT_D", 0xfffffc00, 0x729c2c00},
{"VPCNT_H", 0xfffffc00, 0x729c2400},
{"VPCNT_W", 0xfffffc00, 0x729c2800},
{"VPERMI_W", 0xfffc0000, 0x73e40000},
{"VPICKEV_B", 0xffff8000, 0x711e0000},
{"VPICKEV_D", 0xffff8000, 0x711f8000},
{"VPICKEV_H", 0xffff8000, 0x711e8000},
{"VPICKEV_W", 0xffff8000, 0x711f0000},
{"VPICKOD_B", 0xffff8000, 0x71200000},
{"VPICKOD_D", 0xffff8000, 0x71218000},
{"VPICKOD_H", 0xffff8000, 0x71208000},
{"VPICKOD_W", 0xffff8000, 0x71210000},
{"VPICKVE2GR_B", 0xffffc000, 0x72ef8000},
{"VPICKVE2GR_BU", 0xffffc000, 0x72f38000},
{"VPICKVE2GR_D", 0xfffff800, 0x72eff000},
{"VPICKVE2GR_DU", 0xfffff800, 0x72f3f000},
{"VPICKVE2GR_H", 0xffffe000, 0x72efc000},
{"VPICKVE2GR_HU", 0xffffe000, 0x72f3c000},
{"VPICKVE2GR_W", 0xfffff000, 0x72efe000},
{"VPICKVE2GR_WU", 0xfffff000, 0x72f3e000},
{"VREPLGR2VR_B", 0xfffffc00, 0x729f0000},
{"VREPLGR2VR_D", 0xfffffc00, 0x729f0c00},
{"VREPLGR2VR_H", 0xfffffc00, 0x729f0400},
{"VREPLGR2VR_W", 0xfffffc00, 0x729f0800},
{"VREPLVEI_B", 0xffffc000, 0x72f78000},
{"VREPLVEI_D", 0xfffff800, 0x72f7f000},
{"VREPLVEI_H", 0xffffe000, 0x72f7c000},
{"VREPLVEI_W", 0xfffff000, 0x72f7e000},
{"VREPLVE_B", 0xffff8000, 0x71220000},
{"VREPLVE_D", 0xffff8000, 0x71238000},
{"VREPLVE_H", 0xffff8000, 0x71228000},
{"VREPLVE_W", 0xffff8000, 0x71230000},
{"VROTRI_B", 0xffffe000, 0x72a02000},
{"VROTRI_D", 0xffff0000, 0x72a10000},
{"VROTRI_H", 0xffffc000, 0x72a04000},
{"VROTRI_W", 0xffff8000, 0x72a08000},
{"VROTR_B", 0xffff8000, 0x70ee0000},
{"VROTR_D", 0xffff8000, 0x70ef8000},
{"VROTR_H", 0xffff8000, 0x70ee8000},
{"VROTR_W", 0xffff8000, 0x70ef0000},
{"VSADD_B", 0xffff8000, 0x70460000},
{"VSADD_BU", 0xffff8000, 0x704a0000},
{"VSADD_D", 0xffff8000, 0x70478000},
{"VSADD_DU", 0xffff8000, 0x704b8000},
{"VSADD_H", 0xffff8000, 0x70468000},
{"VSADD_HU", 0xffff8000, 0x704a8000},
{"VSADD_W", 0xffff8000, 0x70470000},
{"VSADD_WU", 0xffff8000, 0x704b0000},
{"VSAT_B", 0xffffe000, 0x73242000},
{"VSAT_BU", 0xffffe000, 0x73282000},
{"VSAT_D", 0xffff0000, 0x73250000},
{"VSAT_DU", 0xffff0000, 0x73290000},
{"VSAT_H", 0xffffc000, 0x73244000},
{"VSAT_HU", 0xffffc000, 0x73284000},
{"VSAT_W", 0xffff8000, 0x73248000},
{"VSAT_WU", 0xffff8000, 0x73288000},
{"VSEQI_B", 0xffff8000, 0x72800000},
{"VSEQI_D", 0xffff8000, 0x72818000},
{"VSEQI_H", 0xffff8000, 0x72808000},
{"VSEQI_W", 0xffff8000, 0x72810000},
{"VSEQ_B", 0xffff8000, 0x70000000},
{"VSEQ_D", 0xffff8000, 0x70018000},
{"VSEQ_H", 0xffff8000, 0x70008000},
{"VSEQ_W", 0xffff8000, 0x70010000},
{"VSETALLNEZ_B", 0xfffffc18, 0x729cb000},
{"VSETALLNEZ_D", 0xfffffc18, 0x729cbc00},
{"VSETALLNEZ_H", 0xfffffc18, 0x729cb400},
{"VSETALLNEZ_W", 0xfffffc18, 0x729cb800},
{"VSETANYEQZ_B", 0xfffffc18, 0x729ca000},
{"VSETANYEQZ_D", 0xfffffc18, 0x729cac00},
{"VSETANYEQZ_H", 0xfffffc18, 0x729ca400},
{"VSETANYEQZ_W", 0xfffffc18, 0x729ca800},
{"VSETEQZ_V", 0xfffffc18, 0x729c9800},
{"VSETNEZ_V", 0xfffffc18, 0x729c9c00},
{"VSHUF4I_B", 0xfffc0000, 0x73900000},
{"VSHUF4I_D", 0xfffc0000, 0x739c0000},
{"VSHUF4I_H", 0xfffc0000, 0x73940000},
{"VSHUF4I_W", 0xfffc0000, 0x73980000},
{"VSHUF_B", 0xfff00000, 0x0d500000},
{"VSHUF_D", 0xffff8000, 0x717b8000},
{"VSHUF_H", 0xffff8000, 0x717a8000},
{"VSHUF_W", 0xffff8000, 0x717b0000},
{"VSIGNCOV_B", 0xffff8000, 0x712e0000},
{"VSIGNCOV_D", 0xffff8000, 0x712f8000},
{"VSIGNCOV_H", 0xffff8000, 0x712e8000},
{"VSIGNCOV_W", 0xffff8000, 0x712f0000},
{"VSLEI_B", 0xffff8000, 0x72820000},
{"VSLEI_BU", 0xffff8000, 0x72840000},
{"VSLEI_D", 0xffff8000, 0x72838000},
{"VSLEI_DU", 0xffff8000, 0x72858000},
{"VSLEI_H", 0xffff8000, 0x72828000},
{"VSLEI_HU", 0xffff8000, 0x72848000},
{"VSLEI_W", 0xffff8000, 0x72830000},
{"VSLEI_WU", 0xffff8000, 0x72850000},
{"VSLE_B", 0xffff8000, 0x70020000},
{"VSLE_BU", 0xffff8000, 0x70040000},
{"VSLE_D", 0xffff8000, 0x70038000},
{"VSLE_DU", 0xffff8000, 0x70058000},
{"VSLE_H", 0xffff8000, 0x70028000},
{"VSLE_HU", 0xffff8000, 0x70048000},
{"VSLE_W", 0xffff8000, 0x70030000},
{"VSLE_WU", 0xffff8000, 0x70050000},
{"VSLLI_B", 0xffffe000, 0x732c2000},
{"VSLLI_D", 0xffff0000, 0x732d0000},
{"VSLLI_H", 0xffffc000, 0x732c4000},
{"VSLLI_W", 0xffff8000, 0x732c8000},
{"VSLLWIL_DU_WU", 0xffff8000, 0x730c8000},
{"VSLLWIL_D_W", 0xffff8000, 0x73088000},
{"VSLLWIL_HU_BU", 0xffffe000, 0x730c2000},
{"VSLLWIL_H_B", 0xffffe000, 0x73082000},
{"VSLLWIL_WU_HU", 0xffffc000, 0x730c4000},
{"VSLLWIL_W_H", 0xffffc000, 0x73084000},
{"VSLL_B", 0xffff8000, 0x70e80000},
{"VSLL_D", 0xffff8000, 0x70e98000},
{"VSLL_H", 0xffff8000, 0x70e88000},
{"VSLL_W", 0xffff8000, 0x70e90000},
{"VSLTI_B", 0xffff8000, 0x72860000},
{"VSLTI_BU", 0xffff8000, 0x72880000},
{"VSLTI_D", 0xffff8000, 0x72878000},
{"VSLTI_DU", 0xffff8000, 0x72898000},
{"VSLTI_H", 0xffff8000, 0x72868000},
{"VSLTI_HU", 0xffff8000, 0x72888000},
{"VSLTI_W", 0xffff8000, 0x72870000},
{"VSLTI_WU", 0xffff8000, 0x72890000},
{"VSLT_B", 0xffff8000, 0x70060000},
{"VSLT_BU", 0xffff8000, 0x70080000},
{"VSLT_D", 0xffff8000, 0x70078000},
{"VSLT_DU", 0xffff8000, 0x70098000},
{"VSLT_H", 0xffff8000, 0x70068000},
{"VSLT_HU", 0xffff8000, 0x70088000},
{"VSLT_W", 0xffff8000, 0x70070000},
{"VSLT_WU", 0xffff8000, 0x70090000},
{"VSRAI_B", 0xffffe000, 0x73342000},
{"VSRAI_D", 0xffff0000, 0x73350000},
{"VSRAI_H", 0xffffc000, 0x73344000},
{"VSRAI_W", 0xffff8000, 0x73348000},
{"VSRANI_B_H", 0xffffc000, 0x73584000},
{"VSRANI_D_Q", 0xfffe0000, 0x735a0000},
{"VSRANI_H_W", 0xffff8000, 0x73588000},
{"VSRANI_W_D", 0xffff0000, 0x73590000},
{"VSRAN_B_H", 0xffff8000, 0x70f68000},
{"VSRAN_H_W", 0xffff8000, 0x70f70000},
{"VSRAN_W_D", 0xffff8000, 0x70f78000},
{"VSRARI_B", 0xffffe000, 0x72a82000},
{"VSRARI_D", 0xffff0000, 0x72a90000},
{"VSRARI_H", 0xffffc000, 0x72a84000},
{"VSRARI_W", 0xffff8000, 0x72a88000},
{"VSRARNI_B_H", 0xffffc000, 0x735c4000},
{"VSRARNI_D_Q", 0xfffe0000, 0x735e0000},
{"VSRARNI_H_W", 0xffff8000, 0x735c8000},
{"VSRARNI_W_D", 0xffff0000, 0x735d0000},
{"VSRARN_B_H", 0xffff8000, 0x70fa8000},
{"VSRARN_H_W", 0xffff8000, 0x70fb0000},
{"VSRARN_W_D", 0xffff8000, 0x70fb8000},
{"VSRAR_B", 0xffff8000, 0x70f20000},
{"VSRAR_D", 0xffff8000, 0x70f38000},
{"VSRAR_H", 0xffff8000, 0x70f28000},
{"VSRAR_W", 0xffff8000, 0x70f30000},
{"VSRA_B", 0xffff8000, 0x70ec0000},
{"VSRA_D", 0xffff8000, 0x70ed8000},
{"VSRA_H", 0xffff8000, 0x70ec8000},
{"VSRA_W", 0xffff8000, 0x70ed0000},
{"VSRLI_B", 0xffffe000, 0x73302000},
{"VSRLI_D", 0xffff0000, 0x73310000},
{"VSRLI_H", 0xffffc000, 0x73304000},
{"VSRLI_W", 0xffff8000, 0x73308000},
{"VSRLNI_B_H", 0xffffc000, 0x73404000},
{"VSRLNI_D_Q", 0xfffe0000, 0x73420000},
{"VSRLNI_H_W", 0xffff8000, 0x73408000},
{"VSRLNI_W_D", 0xffff0000, 0x73410000},
{"VSRLN_B_H", 0xffff8000, 0x70f48000},
{"VSRLN_H_W", 0xffff8000, 0x70f50000},
{"VSRLN_W_D", 0xffff8000, 0x70f58000},
{"VSRLRI_B", 0xffffe000, 0x72a42000},
{"VSRLRI_D", 0xffff0000, 0x72a50000},
{"VSRLRI_H", 0xffffc000, 0x72a44000},
{"VSRLRI_W", 0xffff8000, 0x72a48000},
{"VSRLRNI_B_H", 0xffffc000, 0x73444000},
{"VSRLRNI_D_Q", 0xfffe0000, 0x73460000},
{"VSRLRNI_H_W", 0xffff8000, 0x73448000},
{"VSRLRNI_W_D", 0xffff0000, 0x73450000},
{"VSRLRN_B_H", 0xffff8000, 0x70f88000},
{"VSRLRN_H_W", 0xffff8000, 0x70f90000},
{"VSRLRN_W_D", 0xffff8000, 0x70f98000},
{"VSRLR_B", 0xffff8000, 0x70f00000},
{"VSRLR_D", 0xffff8000, 0x70f18000},
{"VSRLR_H", 0xffff8000, 0x70f08000},
{"VSRLR_W", 0xffff8000, 0x70f10000},
{"VSRL_B", 0xffff8000, 0x70ea0000},
{"VSRL_D", 0xffff8000, 0x70eb8000},
{"VSRL_H", 0xffff8000, 0x70ea8000},
{"VSRL_W", 0xffff8000, 0x70eb0000},
{"VSSRANI_BU_H", 0xffffc000, 0x73644000},
{"VSSRANI_B_H", 0xffffc000, 0x73604000},
{"VSSRANI_DU_Q", 0xfffe0000, 0x73660000},
{"VSSRANI_D_Q", 0xfffe0000, 0x73620000},
{"VSSRANI_HU_W", 0xffff8000, 0x73648000},
{"VSSRANI_H_W", 0xffff8000, 0x73608000},
{"VSSRANI_WU_D", 0xffff0000, 0x73650000},
{"VSSRANI_W_D", 0xffff0000, 0x73610000},
{"VSSRAN_BU_H", 0xffff8000, 0x71068000},
{"VSSRAN_B_H", 0xffff8000, 0x70fe8000},
{"VSSRAN_HU_W", 0xffff8000, 0x71070000},
{"VSSRAN_H_W", 0xffff8000, 0x70ff0000},
{"VSSRAN_WU_D", 0xffff8000, 0x71078000},
{"VSSRAN_W_D", 0xffff8000, 0x70ff8000},
{"VSSRARNI_BU_H", 0xffffc000, 0x736c4000},
{"VSSRARNI_B_H", 0xffffc000, 0x73684000},
{"VSSRARNI_DU_Q", 0xfffe0000, 0x736e0000},
{"VSSRARNI_D_Q", 0xfffe0000, 0x736a0000},
{"VSSRARNI_HU_W", 0xffff8000, 0x736c8000},
{"VSSRARNI_H_W", 0xffff8000, 0x73688000},
{"VSSRARNI_WU_D", 0xffff0000, 0x736d0000},
{"VSSRARNI_W_D", 0xffff0000, 0x73690000},
{"VSSRARN_BU_H", 0xffff8000, 0x710a8000},
{"VSSRARN_B_H", 0xffff8000, 0x71028000},
{"VSSRARN_HU_W", 0xffff8000, 0x710b0000},
{"VSSRARN_H_W", 0xffff8000, 0x71030000},
{"VSSRARN_WU_D", 0xffff8000, 0x710b8000},
{"VSSRARN_W_D", 0xffff8000, 0x71038000},
{"VSSRLNI_BU_H", 0xffffc000, 0x734c4000},
{"VSSRLNI_B_H", 0xffffc000, 0x73484000},
{"VSSRLNI_DU_Q", 0xfffe0000, 0x734e0000},
{"VSSRLNI_D_Q", 0xfffe0000, 0x734a0000},
{"VSSRLNI_HU_W", 0xffff8000, 0x734c8000},
{"VSSRLNI_H_W", 0xffff8000, 0x73488000},
{"VSSRLNI_WU_D", 0xffff0000, 0x734d0000},
{"VSSRLNI_W_D", 0xffff0000, 0x73490000},
{"VSSRLN_BU_H", 0xffff8000, 0x71048000},
{"VSSRLN_B_H", 0xffff8000, 0x70fc8000},
{"VSSRLN_HU_W", 0xffff8000, 0x71050000},
{"VSSRLN_H_W", 0xffff8000, 0x70fd0000},
{"VSSRLN_WU_D", 0xffff8000, 0x71058000},
{"VSSRLN_W_D", 0xffff8000, 0x70fd8000},
{"VSSRLRNI_BU_H", 0xffffc000, 0x73544000},
{"VSSRLRNI_B_H", 0xffffc000, 0x73504000},
{"VSSRLRNI_DU_Q", 0xfffe0000, 0x73560000},
{"VSSRLRNI_D_Q", 0xfffe0000, 0x73520000},
{"VSSRLRNI_HU_W", 0xffff8000, 0x73548000},
{"VSSRLRNI_H_W", 0xffff8000, 0x73508000},
{"VSSRLRNI_WU_D", 0xffff0000, 0x73550000},
{"VSSRLRNI_W_D", 0xffff0000, 0x73510000},
{"VSSRLRN_BU_H", 0xffff8000, 0x71088000},
{"VSSRLRN_B_H", 0xffff8000, 0x71008000},
{"VSSRLRN_HU_W", 0xffff8000, 0x71090000},
{"VSSRLRN_H_W", 0xffff8000, 0x71010000},
{"VSSRLRN_WU_D", 0xffff8000, 0x71098000},
{"VSSRLRN_W_D", 0xffff8000, 0x71018000},
{"VSSUB_B", 0xffff8000, 0x70480000},
{"VSSUB_BU", 0xffff8000, 0x704c0000},
{"VSSUB_D", 0xffff8000, 0x70498000},
{"VSSUB_DU", 0xffff8000, 0x704d8000},
{"VSSUB_H", 0xffff8000, 0x70488000},
{"VSSUB_HU", 0xffff8000, 0x704c8000},
{"VSSUB_W", 0xffff8000, 0x70490000},
{"VSSUB_WU", 0xffff8000, 0x704d0000},
{"VST", 0xffc00000, 0x2c400000},
{"VSTELM_B", 0xffc00000, 0x31800000},
{"VSTELM_D", 0xfff80000, 0x31100000},
{"VSTELM_H", 0xffe00000, 0x31400000},
{"VSTELM_W", 0xfff00000, 0x31200000},
{"VSTX", 0xffff8000, 0x38440000},
{"VSUBI_BU", 0xffff8000, 0x728c0000},
{"VSUBI_DU", 0xffff8000, 0x728d8000},
{"VSUBI_HU", 0xffff8000, 0x728c8000},
{"VSUBI_WU", 0xffff8000, 0x728d0000},
{"VSUBWEV_D_W", 0xffff8000, 0x70210000},
{"VSUBWEV_D_WU", 0xffff8000, 0x70310000},
{"VSUBWEV_H_B", 0xffff8000, 0x70200000},
{"VSUBWEV_H_BU", 0xffff8000, 0x70300000},
{"VSUBWEV_Q_D", 0xffff8000, 0x70218000},
{"VSUBWEV_Q_DU", 0xffff8000, 0x70318000},
{"VSUBWEV_W_H", 0xffff8000, 0x70208000},
{"VSUBWEV_W_HU", 0xffff8000, 0x70308000},
{"VSUBWOD_D_W", 0xffff8000, 0x70250000},
{"VSUBWOD_D_WU", 0xffff8000, 0x70350000},
{"VSUBWOD_H_B", 0xffff8000, 0x70240000},
{"VSUBWOD_H_BU", 0xffff8000, 0x70340000},
{"VSUBWOD_Q_D", 0xffff8000, 0x70258000},
{"VSUBWOD_Q_DU", 0xffff8000, 0x70358000},
{"VSUBWOD_W_H", 0xffff8000, 0x70248000},
{"VSUBWOD_W_HU", 0xffff8000, 0x70348000},
{"VSUB_B", 0xffff8000, 0x700c0000},
{"VSUB_D", 0xffff8000, 0x700d8000},
{"VSUB_H", 0xffff8000, 0x700c8000},
{"VSUB_Q", 0xffff8000, 0x712d8000},
{"VSUB_W", 0xffff8000, 0x700d0000},
{"VXORI_B", 0xfffc0000, 0x73d80000},
{"VXOR_V", 0xffff8000, 0x71270000},
{"X86ADC_B", 0xffff801f, 0x003f000c},
{"X86ADC_D", 0xffff801f, 0x003f000f},
{"X86ADC_H", 0xffff801f, 0x003f000d},
{"X86ADC_W", 0xffff801f, 0x003f000e},
{"X86ADD_B", 0xffff801f, 0x003f0004},
{"X86ADD_D", 0xffff801f, 0x003f0007},
{"X86ADD_DU", 0xffff801f, 0x003f0001},
{"X86ADD_H", 0xffff801f, 0x003f0005},
{"X86ADD_W", 0xffff801f, 0x003f0006},
{"X86ADD_WU", 0xffff801f, 0x003f0000},
{"X86AND_B", 0xffff801f, 0x003f8010},
{"X86AND_D", 0xffff801f, 0x003f8013},
{"X86AND_H", 0xffff801f, 0x003f8011},
{"X86AND_W", 0xffff801f, 0x003f8012},
{"X86CLRTM", 0xffffffff, 0x00008028},
{"X86DECTOP", 0xffffffff, 0x00008029},
{"X86DEC_B", 0xfffffc1f, 0x00008004},
{"X86DEC_D", 0xfffffc1f, 0x00008007},
{"X86DEC_H", 0xfffffc1f, 0x00008005},
{"X86DEC_W", 0xfffffc1f, 0x00008006},
{"X86INCTOP", 0xffffffff, 0x00008009},
{"X86INC_B", 0xfffffc1f, 0x00008000},
{"X86INC_D", 0xfffffc1f, 0x00008003},
{"X86INC_H", 0xfffffc1f, 0x00008001},
{"X86INC_W", 0xfffffc1f, 0x00008002},
{"X86MFFLAG", 0xfffc03e0, 0x005c0000},
{"X86MFTOP", 0xffffffe0, 0x00007400},
{"X86MTFLAG", 0xfffc03e0, 0x005c0020},
{"X86MTTOP", 0xffffff1f, 0x00007000},
{"X86MUL_B", 0xffff801f, 0x003e8000},
{"X86MUL_BU", 0xffff801f, 0x003e8004},
{"X86MUL_D", 0xffff801f, 0x003e8003},
{"X86MUL_DU", 0xffff801f, 0x003e8007},
{"X86MUL_H", 0xffff801f, 0x003e8001},
{"X86MUL_HU", 0xffff801f, 0x003e8005},
{"X86MUL_W", 0xffff801f, 0x003e8002},
{"X86MUL_WU", 0xffff801f, 0x003e8006},
{"X86OR_B", 0xffff801f, 0x003f8014},
{"X86OR_D", 0xffff801f, 0x003f8017},
{"X86OR_H", 0xffff801f, 0x003f8015},
{"X86OR_W", 0xffff801f, 0x003f8016},
{"X86RCLI_B", 0xffffe01f, 0x00542018},
{"X86RCLI_D", 0xffff001f, 0x0055001b},
{"X86RCLI_H", 0xffffc01f, 0x00544019},
{"X86RCLI_W", 0xffff801f, 0x0054801a},
{"X86RCL_B", 0xffff801f, 0x003f800c},
{"X86RCL_D", 0xffff801f, 0x003f800f},
{"X86RCL_H", 0xffff801f, 0x003f800d},
{"X86RCL_W", 0xffff801f, 0x003f800e},
{"X86RCRI_B", 0xffffe01f, 0x00542010},
{"X86RCRI_D", 0xffff001f, 0x00550013},
{"X86RCRI_H", 0xffffc01f, 0x00544011},
{"X86RCRI_W", 0xffff801f, 0x00548012},
{"X86RCR_B", 0xffff801f, 0x003f8008},
{"X86RCR_D", 0xffff801f, 0x003f800b},
{"X86RCR_H", 0xffff801f, 0x003f8009},
{"X86RCR_W", 0xffff801f, 0x003f800a},
{"X86ROTLI_B", 0xffffe01f, 0x00542014},
{"X86ROTLI_D", 0xffff001f, 0x00550017},
{"X86ROTLI_H", 0xffffc01f, 0x00544015},
{"X86ROTLI_W", 0xffff801f, 0x00548016},
{"X86ROTL_B", 0xffff801f, 0x003f8004},
{"X86ROTL_D", 0xffff801f, 0x003f8007},
{"X86ROTL_H", 0xffff801f, 0x003f8005},
{"X86ROTL_W", 0xffff801f, 0x003f8006},
{"X86ROTRI_B", 0xffffe01f, 0x0054200c},
{"X86ROTRI_D", 0xffff001f, 0x0055000f},
{"X86ROTRI_H", 0xffffc01f, 0x0054400d},
{"X86ROTRI_W", 0xffff801f, 0x0054800e},
{"X86ROTR_B", 0xffff801f, 0x003f8000},
{"X86ROTR_D", 0xffff801f, 0x003f8002},
{"X86ROTR_H", 0xffff801f, 0x003f8001},
{"X86ROTR_W", 0xffff801f, 0x003f8003},
{"X86SBC_B", 0xffff801f, 0x003f0010},
{"X86SBC_D", 0xffff801f, 0x003f0013},
{"X86SBC_H", 0xffff801f, 0x003f0011},
{"X86SBC_W", 0xffff801f, 0x003f0012},
{"X86SETTAG", 0xfffc0000, 0x00580000},
{"X86SETTM", 0xffffffff, 0x00008008},
{"X86SLLI_B", 0xffffe01f, 0x00542000},
{"X86SLLI_D", 0xffff001f, 0x00550003},
{"X86SLLI_H", 0xffffc01f, 0x00544001},
{"X86SLLI_W", 0xffff801f, 0x00548002},
{"X86SLL_B", 0xffff801f, 0x003f0014},
{"X86SLL_D", 0xffff801f, 0x003f0017},
{"X86SLL_H", 0xffff801f, 0x003f0015},
{"X86SLL_W", 0xffff801f, 0x003f0016},
{"X86SRAI_B", 0xffffe01f, 0x00542008},
{"X86SRAI_D", 0xffff001f, 0x0055000b},
{"X86SRAI_H", 0xffffc01f, 0x00544009},
{"X86SRAI_W", 0xffff801f, 0x0054800a},
{"X86SRA_B", 0xffff801f, 0x003f001c},
{"X86SRA_D", 0xffff801f, 0x003f001f},
{"X86SRA_H", 0xffff801f, 0x003f001d},
{"X86SRA_W", 0xffff801f, 0x003f001e},
{"X86SRLI_B", 0xffffe01f, 0x00542004},
{"X86SRLI_D", 0xffff001f, 0x00550007},
{"X86SRLI_H", 0xffffc01f, 0x00544005},
{"X86SRLI_W", 0xffff801f, 0x00548006},
{"X86SRL_B", 0xffff801f, 0x003f0018},
{"X86SRL_D", 0xffff801f, 0x003f001b},
{"X86SRL_H", 0xffff801f, 0x003f0019},
{"X86SRL_W", 0xffff801f, 0x003f001a},
{"X86SUB_B", 0xffff801f, 0x003f0008},
{"X86SUB_D", 0xffff801f, 0x003f000b},
{"X86SUB_DU", 0xffff801f, 0x003f0003},
{"X86SUB_H", 0xffff801f, 0x003f0009},
{"X86SUB_W", 0xffff801f, 0x003f000a},
{"X86SUB_WU", 0xffff801f, 0x003f0002},
{"X86XOR_B", 0xffff801f, 0x003f8018},
{"X86XOR_D", 0xffff801f, 0x003f801b},
{"X86XOR_H", 0xffff801f, 0x003f8019},
{"X86XOR_W", 0xffff801f, 0x003f801a},
{"XOR", 0xffff8000, 0x00158000},
{"XORI", 0xffc00000, 0x03c00000},
{"XVABSD_B", 0xffff8000, 0x74600000},
{"XVABSD_BU", 0xffff8000, 0x74620000},
{"XVABSD_D", 0xffff8000, 0x74618000},
{"XVABSD_DU", 0xffff8000, 0x74638000},
{"XVABSD_H", 0xffff8000, 0x74608000},
{"XVABSD_HU", 0xffff8000, 0x74628000},
{"XVABSD_W", 0xffff8000, 0x74610000},
{"XVABSD_WU", 0xffff8000, 0x74630000},
{"XVADDA_B", 0xffff8000, 0x745c0000},
{"XVADDA_D", 0xffff8000, 0x745d8000},
{"XVADDA_H", 0xffff8000, 0x745c8000},
{"XVADDA_W", 0xffff8000, 0x745d0000},
{"XVADDI_BU", 0xffff8000, 0x768a0000},
{"XVADDI_DU", 0xffff8000, 0x768b8000},
{"XVADDI_HU", 0xffff8000, 0x768a8000},
{"XVADDI_WU", 0xffff8000, 0x768b0000},
{"XVADDWEV_D_W", 0xffff8000, 0x741f0000},
{"XVADDWEV_D_WU", 0xffff8000, 0x742f0000},
{"XVADDWEV_D_WU_W", 0xffff8000, 0x743f0000},
{"XVADDWEV_H_B", 0xffff8000, 0x741e0000},
{"XVADDWEV_H_BU", 0xffff8000, 0x742e0000},
{"XVADDWEV_H_BU_B", 0xffff8000, 0x743e0000},
{"XVADDWEV_Q_D", 0xffff8000, 0x741f8000},
{"XVADDWEV_Q_DU", 0xffff8000, 0x742f8000},
{"XVADDWEV_Q_DU_D", 0xffff8000, 0x743f8000},
{"XVADDWEV_W_H", 0xffff8000, 0x741e8000},
{"XVADDWEV_W_HU", 0xffff8000, 0x742e8000},
{"XVADDWEV_W_HU_H", 0xffff8000, 0x743e8000},
{"XVADDWOD_D_W", 0xffff8000, 0x74230000},
{"XVADDWOD_D_WU", 0xffff8000, 0x74330000},
{"XVADDWOD_D_WU_W", 0xffff8000, 0x74410000},
{"XVADDWOD_H_B", 0xffff8000, 0x74220000},
{"XVADDWOD_H_BU", 0xffff8000, 0x74320000},
{"XVADDWOD_H_BU_B", 0xffff8000, 0x74400000},
{"XVADDWOD_Q_D", 0xffff8000, 0x74238000},
{"XVADDWOD_Q_DU", 0xffff8000, 0x74338000},
{"XVADDWOD_Q_DU_D", 0xffff8000, 0x74418000},
{"XVADDWOD_W_H", 0xffff8000, 0x74228000},
{"XVADDWOD_W_HU", 0xffff8000, 0x74328000},
{"XVADDWOD_W_HU_H", 0xffff8000, 0x74408000},
{"XVADD_B", 0xffff8000, 0x740a0000},
{"XVADD_D", 0xffff8000, 0x740b8000},
{"XVADD_H", 0xffff8000, 0x740a8000},
{"XVADD_Q", 0xffff8000, 0x752d0000},
{"XVADD_W", 0xffff8000, 0x740b0000},
{"XVANDI_B", 0xfffc0000, 0x77d00000},
{"XVANDN_V", 0xffff8000, 0x75280000},
{"XVAND_V", 0xffff8000, 0x75260000},
{"XVAVGR_B", 0xffff8000, 0x74680000},
{"XVAVGR_BU", 0xffff8000, 0x746a0000},
{"XVAVGR_D", 0xffff8000, 0x74698000},
{"XVAVGR_DU", 0xffff8000, 0x746b8000},
{"XVAVGR_H", 0xffff8000, 0x74688000},
{"XVAVGR_HU", 0xffff8000, 0x746a8000},
{"XVAVGR_W", 0xffff8000, 0x74690000},
{"XVAVGR_WU", 0xffff8000, 0x746b0000},
{"XVAVG_B", 0xffff8000, 0x74640000},
{"XVAVG_BU", 0xffff8000, 0x74660000},
{"XVAVG_D", 0xffff8000, 0x74658000},
{"XVAVG_DU", 0xffff8000, 0x74678000},
{"XVAVG_H", 0xffff8000, 0x74648000},
{"XVAVG_HU", 0xffff8000, 0x74668000},
{"XVAVG_W", 0xffff8000, 0x74650000},
{"XVAVG_WU", 0xffff8000, 0x74670000},
{"XVBITCLRI_B", 0xffffe000, 0x77102000},
{"XVBITCLRI_D", 0xffff0000, 0x77110000},
{"XVBITCLRI_H", 0xffffc000, 0x77104000},
{"XVBITCLRI_W", 0xffff8000, 0x77108000},
{"XVBITCLR_B", 0xffff8000, 0x750c0000},
{"XVBITCLR_D", 0xffff8000, 0x750d8000},
{"XVBITCLR_H", 0xffff8000, 0x750c8000},
{"XVBITCLR_W", 0xffff8000, 0x750d0000},
{"XVBITREVI_B", 0xffffe000, 0x77182000},
{"XVBITREVI_D", 0xffff0000, 0x77190000},
{"XVBITREVI_H", 0xffffc000, 0x77184000},
{"XVBITREVI_W", 0xffff8000, 0x77188000},
{"XVBITREV_B", 0xffff8000, 0x75100000},
{"XVBITREV_D", 0xffff8000, 0x75118000},
{"XVBITREV_H", 0xffff8000, 0x75108000},
{"XVBITREV_W", 0xffff8000, 0x75110000},
{"XVBITSELI_B", 0xfffc0000, 0x77c40000},
{"XVBITSEL_V", 0xfff00000, 0x0d200000},
{"XVBITSETI_B", 0xffffe000, 0x77142000},
{"XVBITSETI_D", 0xffff0000, 0x77150000},
{"XVBITSETI_H", 0xffffc000, 0x77144000},
{"XVBITSETI_W", 0xffff8000, 0x77148000},
{"XVBITSET_B", 0xffff8000, 0x750e0000},
{"XVBITSET_D", 0xffff8000, 0x750f8000},
{"XVBITSET_H", 0xffff8000, 0x750e8000},
{"XVBITSET_W", 0xffff8000, 0x750f0000},
{"XVBSLL_V", 0xffff8000, 0x768e0000},
{"XVBSRL_V", 0xffff8000, 0x768e8000},
{"XVCLO_B", 0xfffffc00, 0x769c0000},
{"XVCLO_D", 0xfffffc00, 0x769c0c00},
{"XVCLO_H", 0xfffffc00, 0x769c0400},
{"XVCLO_W", 0xfffffc00, 0x769c0800},
{"XVCLZ_B", 0xfffffc00, 0x769c1000},
{"XVCLZ_D", 0xfffffc00, 0x769c1c00},
{"XVCLZ_H", 0xfffffc00, 0x769c1400},
{"XVCLZ_W", 0xfffffc00, 0x769c1800},
{"XVDIV_B", 0xffff8000, 0x74e00000},
{"XVDIV_BU", 0xffff8000, 0x74e40000},
{"XVDIV_D", 0xffff8000, 0x74e18000},
{"XVDIV_DU", 0xffff8000, 0x74e58000},
{"XVDIV_H", 0xffff8000, 0x74e08000},
{"XVDIV_HU", 0xffff8000, 0x74e48000},
{"XVDIV_W", 0xffff8000, 0x74e10000},
{"XVDIV_WU", 0xffff8000, 0x74e50000},
{"XVEXTH_DU_WU", 0xfffffc00, 0x769ef800},
{"XVEXTH_D_W", 0xfffffc00, 0x769ee800},
{"XVEXTH_HU_BU", 0xfffffc00, 0x769ef000},
{"XVEXTH_H_B", 0xfffffc00, 0x769ee000},
{"XVEXTH_QU_DU", 0xfffffc00, 0x769efc00},
{"XVEXTH_Q_D", 0xfffffc00, 0x769eec00},
{"XVEXTH_WU_HU", 0xfffffc00, 0x769ef400},
{"XVEXTH_W_H", 0xfffffc00, 0x769ee400},
{"XVEXTL_QU_DU", 0xfffffc00, 0x770d0000},
{"XVEXTL_Q_D", 0xfffffc00, 0x77090000},
{"XVEXTRINS_B", 0xfffc0000, 0x778c0000},
{"XVEXTRINS_D", 0xfffc0000, 0x77800000},
{"XVEXTRINS_H", 0xfffc0000, 0x77880000},
{"XVEXTRINS_W", 0xfffc0000, 0x77840000},
{"XVFADD_D", 0xffff8000, 0x75310000},
{"XVFADD_S", 0xffff8000, 0x75308000},
{"XVFCLASS_D", 0xfffffc00, 0x769cd800},
{"XVFCLASS_S", 0xfffffc00, 0x769cd400},
{"XVFCMP_CAF_D", 0xffff8000, 0x0ca00000},
{"XVFCMP_CAF_S", 0xffff8000, 0x0c900000},
{"XVFCMP_CEQ_D", 0xffff8000, 0x0ca20000},
{"XVFCMP_CEQ_S", 0xffff8000, 0x0c920000},
{"XVFCMP_CLE_D", 0xffff8000, 0x0ca30000},
{"XVFCMP_CLE_S", 0xffff8000, 0x0c930000},
{"XVFCMP_CLT_D", 0xffff8000, 0x0ca10000},
{"XVFCMP_CLT_S", 0xffff8000, 0x0c910000},
{"XVFCMP_CNE_D", 0xffff8000, 0x0ca80000},
{"XVFCMP_CNE_S", 0xffff8000, 0x0c980000},
{"XVFCMP_COR_D", 0xffff8000, 0x0caa0000},
{"XVFCMP_COR_S", 0xffff8000, 0x0c9a0000},
{"XVFCMP_CUEQ_D", 0xffff8000, 0x0ca60000},
{"XVFCMP_CUEQ_S", 0xffff8000, 0x0c960000},
{"XVFCMP_CULE_D", 0xffff8000, 0x0ca70000},
{"XVFCMP_CULE_S", 0xffff8000, 0x0c970000},
{"XVFCMP_CULT_D", 0xffff8000, 0x0ca50000},
{"XVFCMP_CULT_S", 0xffff8000, 0x0c950000},
{"XVFCMP_CUNE_D", 0xffff8000, 0x0cac0000},
{"XVFCMP_CUNE_S", 0xffff8000, 0x0c9c0000},
{"XVFCMP_CUN_D", 0xffff8000, 0x0ca40000},
{"XVFCMP_CUN_S", 0xffff8000, 0x0c940000},
{"XVFCMP_SAF_D", 0xffff8000, 0x0ca08000},
{"XVFCMP_SAF_S", 0xffff8000, 0x0c908000},
{"XVFCMP_SEQ_D", 0xffff8000, 0x0ca28000},
{"XVFCMP_SEQ_S", 0xffff8000, 0x0c928000},
{"XVFCMP_SLE_D", 0xffff8000, 0x0ca38000},
{"XVFCMP_SLE_S", 0xffff8000, 0x0c938000},
{"XVFCMP_SLT_D", 0xffff8000, 0x0ca18000},
{"XVFCMP_SLT_S", 0xffff8000, 0x0c918000},
{"XVFCMP_SNE_D", 0xffff8000, 0x0ca88000},
{"XVFCMP_SNE_S", 0xffff8000, 0x0c988000},
{"XVFCMP_SOR_D", 0xffff8000, 0x0caa8000},
{"XVFCMP_SOR_S", 0xffff8000, 0x0c9a8000},
{"XVFCMP_SUEQ_D", 0xffff8000, 0x0ca68000},
{"XVFCMP_SUEQ_S", 0xffff8000, 0x0c968000},
{"XVFCMP_SULE_D", 0xffff8000, 0x0ca78000},
{"XVFCMP_SULE_S", 0xffff8000, 0x0c978000},
{"XVFCMP_SULT_D", 0xffff8000, 0x0ca58000},
{"XVFCMP_SULT_S", 0xffff8000, 0x0c958000},
{"XVFCMP_SUNE_D", 0xffff8000, 0x0cac8000},
{"XVFCMP_SUNE_S", 0xffff8000, 0x0c9c8000},
{"XVFCMP_SUN_D", 0xffff8000, 0x0ca48000},
{"XVFCMP_SUN_S", 0xffff8000, 0x0c948000},
{"XVFCVTH_D_S", 0xfffffc00, 0x769df400},
{"XVFCVTH_S_H", 0xfffffc00, 0x769dec00},
{"XVFCVTL_D_S", 0xfffffc00, 0x769df000},
{"XVFCVTL_S_H", 0xfffffc00, 0x769de800},
{"XVFCVT_H_S", 0xffff8000, 0x75460000},
{"XVFCVT_S_D", 0xffff8000, 0x75468000},
{"XVFDIV_D", 0xffff8000, 0x753b0000},
{"XVFDIV_S", 0xffff8000, 0x753a8000},
{"XVFFINTH_D_W", 0xfffffc00, 0x769e1400},
{"XVFFINTL_D_W", 0xfffffc00, 0x769e1000},
{"XVFFINT_D_L", 0xfffffc00, 0x769e0800},
{"XVFFINT_D_LU", 0xfffffc00, 0x769e0c00},
{"XVFFINT_S_L", 0xffff8000, 0x75480000},
{"XVFFINT_S_W", 0xfffffc00, 0x769e0000},
{"XVFFINT_S_WU", 0xfffffc00, 0x769e0400},
{"XVFLOGB_D", 0xfffffc00, 0x769cc800},
{"XVFLOGB_S", 0xfffffc00, 0x769cc400},
{"XVFMADD_D", 0xfff00000, 0x0a200000},
{"XVFMADD_S", 0xfff00000, 0x0a100000},
{"XVFMAXA_D", 0xffff8000, 0x75410000},
{"XVFMAXA_S", 0xffff8000, 0x75408000},
{"XVFMAX_D", 0xffff8000, 0x753d0000},
{"XVFMAX_S", 0xffff8000, 0x753c8000},
{"XVFMINA_D", 0xffff8000, 0x75430000},
{"XVFMINA_S", 0xffff8000, 0x75428000},
{"XVFMIN_D", 0xffff8000, 0x753f0000},
{"XVFMIN_S", 0xffff8000, 0x753e8000},
{"XVFMSUB_D", 0xfff00000, 0x0a600000},
{"XVFMSUB_S", 0xfff00000, 0x0a500000},
{"XVFMUL_D", 0xffff8000, 0x75390000},
{"XVFMUL_S", 0xffff8000, 0x75388000},
{"XVFNMADD_D", 0xfff00000, 0x0aa00000},
{"XVFNMADD_S", 0xfff00000, 0x0a900000},
{"XVFNMSUB_D", 0xfff00000, 0x0ae00000},
{"XVFNMSUB_S", 0xfff00000, 0x0ad00000},
{"XVFRECIPE_D", 0xfffffc00, 0x769d1800},
{"XVFRECIPE_S", 0xfffffc00, 0x769d1400},
{"XVFRECIP_D", 0xfffffc00, 0x769cf800},
{"XVFRECIP_S", 0xfffffc00, 0x769cf400},
{"XVFRINTRM_D", 0xfffffc00, 0x769d4800},
{"XVFRINTRM_S", 0xfffffc00, 0x769d4400},
{"XVFRINTRNE_D", 0xfffffc00, 0x769d7800},
{"XVFRINTRNE_S", 0xfffffc00, 0x769d7400},
{"XVFRINTRP_D", 0xfffffc00, 0x769d5800},
{"XVFRINTRP_S", 0xfffffc00, 0x769d5400},
{"XVFRINTRZ_D", 0xfffffc00, 0x769d6800},
{"XVFRINTRZ_S", 0xfffffc00, 0x769d6400},
{"XVFRINT_D", 0xfffffc00, 0x769d3800},
{"XVFRINT_S", 0xfffffc00, 0x769d3400},
{"XVFRSQRTE_D", 0xfffffc00, 0x769d2800},
{"XVFRSQRTE_S", 0xfffffc00, 0x769d2400},
{"XVFRSQRT_D", 0xfffffc00, 0x769d0800},
{"XVFRSQRT_S", 0xfffffc00, 0x769d0400},
{"XVFRSTPI_B", 0xffff8000, 0x769a0000},
{"XVFRSTPI_H", 0xffff8000, 0x769a8000},
{"XVFRSTP_B", 0xffff8000, 0x752b0000},
{"XVFRSTP_H", 0xffff8000, 0x752b8000},
{"XVFSQRT_D", 0xfffffc00, 0x769ce800},
{"XVFSQRT_S", 0xfffffc00, 0x769ce400},
{"XVFSUB_D", 0xffff8000, 0x75330000},
{"XVFSUB_S", 0xffff8000, 0x75328000},
{"XVFTINTH_L_S", 0xfffffc00, 0x769e8400},
{"XVFTINTL_L_S", 0xfffffc00, 0x769e8000},
{"XVFTINTRMH_L_S", 0xfffffc00, 0x769e8c00},
{"XVFTINTRML_L_S", 0xfffffc00, 0x769e8800},
{"XVFTINTRM_L_D", 0xfffffc00, 0x769e3c00},
{"XVFTINTRM_W_D", 0xffff8000, 0x754a0000},
{"XVFTINTRM_W_S", 0xfffffc00, 0x769e3800},
{"XVFTINTRNEH_L_S", 0xfffffc00, 0x769ea400},
{"XVFTINTRNEL_L_S", 0xfffffc00, 0x769ea000},
{"XVFTINTRNE_L_D", 0xfffffc00, 0x769e5400},
{"XVFTINTRNE_W_D", 0xffff8000, 0x754b8000},
{"XVFTINTRNE_W_S", 0xfffffc00, 0x769e5000},
{"XVFTINTRPH_L_S", 0xfffffc00, 0x769e9400},
{"XVFTINTRPL_L_S", 0xfffffc00, 0x769e9000},
{"XVFTINTRP_L_D", 0xfffffc00, 0x769e4400},
{"XVFTINTRP_W_D", 0xffff8000, 0x754a8000},
{"XVFTINTRP_W_S", 0xfffffc00, 0x769e4000},
{"XVFTINTRZH_L_S", 0xfffffc00, 0x769e9c00},
{"XVFTINTRZL_L_S", 0xfffffc00, 0x769e9800},
{"XVFTINTRZ_LU_D", 0xfffffc00, 0x769e7400},
{"XVFTINTRZ_L_D", 0xfffffc00, 0x769e4c00},
{"XVFTINTRZ_WU_S", 0xfffffc00, 0x769e7000},
{"XVFTINTRZ_W_D", 0xffff8000, 0x754b0000},
{"XVFTINTRZ_W_S", 0xfffffc00, 0x769e4800},
{"XVFTINT_LU_D", 0xfffffc00, 0x769e5c00},
{"XVFTINT_L_D", 0xfffffc00, 0x769e3400},
{"XVFTINT_WU_S", 0xfffffc00, 0x769e5800},
{"XVFTINT_W_D", 0xffff8000, 0x75498000},
{"XVFTINT_W_S", 0xfffffc00, 0x769e3000},
{"XVHADDW_DU_WU", 0xffff8000, 0x74590000},
{"XVHADDW_D_W", 0xffff8000, 0x74550000},
{"XVHADDW_HU_BU", 0xffff8000, 0x74580000},
{"XVHADDW_H_B", 0xffff8000, 0x74540000},
{"XVHADDW_QU_DU", 0xffff8000, 0x74598000},
{"XVHADDW_Q_D", 0xffff8000, 0x74558000},
{"XVHADDW_WU_HU", 0xffff8000, 0x74588000},
{"XVHADDW_W_H", 0xffff8000, 0x74548000},
{"XVHSELI_D", 0xffff8000, 0x769f8000},
{"XVHSUBW_DU_WU", 0xffff8000, 0x745b0000},
{"XVHSUBW_D_W", 0xffff8000, 0x74570000},
{"XVHSUBW_HU_BU", 0xffff8000, 0x745a0000},
{"XVHSUBW_H_B", 0xffff8000, 0x74560000},
{"XVHSUBW_QU_DU", 0xffff8000, 0x745b8000},
{"XVHSUBW_Q_D", 0xffff8000, 0x74578000},
{"XVHSUBW_WU_HU", 0xffff8000, 0x745a8000},
{"XVHSUBW_W_H", 0xffff8000, 0x74568000},
{"XVILVH_B", 0xffff8000, 0x751c0000},
{"XVILVH_D", 0xffff8000, 0x751d8000},
{"XVILVH_H", 0xffff8000, 0x751c8000},
{"XVILVH_W", 0xffff8000, 0x751d0000},
{"XVILVL_B", 0xffff8000, 0x751a0000},
{"XVILVL_D", 0xffff8000, 0x751b8000},
{"XVILVL_H", 0xffff8000, 0x751a8000},
{"XVILVL_W", 0xffff8000, 0x751b0000},
{"XVINSGR2VR_D", 0xfffff000, 0x76ebe000},
{"XVINSGR2VR_W", 0xffffe000, 0x76ebc000},
{"XVINSVE0_D", 0xfffff000, 0x76ffe000},
{"XVINSVE0_W", 0xffffe000, 0x76ffc000},
{"XVLD", 0xffc00000, 0x2c800000},
{"XVLDI", 0xfffc0000, 0x77e00000},
{"XVLDREPL_B", 0xffc00000, 0x32800000},
{"XVLDREPL_D", 0xfff80000, 0x32100000},
{"XVLDREPL_H", 0xffe00000, 0x32400000},
{"XVLDREPL_W", 0xfff00000, 0x32200000},
{"XVLDX", 0xffff8000, 0x38480000},
{"XVMADDWEV_D_W", 0xffff8000, 0x74ad0000},
{"XVMADDWEV_D_WU", 0xffff8000, 0x74b50000},
{"XVMADDWEV_D_WU_W", 0xffff8000, 0x74bd0000},
{"XVMADDWEV_H_B", 0xffff8000, 0x74ac0000},
{"XVMADDWEV_H_BU", 0xffff8000, 0x74b40000},
{"XVMADDWEV_H_BU_B", 0xffff8000, 0x74bc0000},
{"XVMADDWEV_Q_D", 0xffff8000, 0x74ad8000},
{"XVMADDWEV_Q_DU", 0xffff8000, 0x74b58000},
{"XVMADDWEV_Q_DU_D", 0xffff8000, 0x74bd8000},
{"XVMADDWEV_W_H", 0xffff8000, 0x74ac8000},
{"XVMADDWEV_W_HU", 0xffff8000, 0x74b48000},
{"XVMADDWEV_W_HU_H", 0xffff8000, 0x74bc8000},
{"XVMADDWOD_D_W", 0xffff8000, 0x74af0000},
{"XVMADDWOD_D_WU", 0xffff8000, 0x74b70000},
{"XVMADDWOD_D_WU_W", 0xffff8000, 0x74bf0000},
{"XVMADDWOD_H_B", 0xffff8000, 0x74ae0000},
{"XVMADDWOD_H_BU", 0xffff8000, 0x74b60000},
{"XVMADDWOD_H_BU_B", 0xffff8000, 0x74be0000},
{"XVMADDWOD_Q_D", 0xffff8000, 0x74af8000},
{"XVMADDWOD_Q_DU", 0xffff8000, 0x74b78000},
{"XVMADDWOD_Q_DU_D", 0xffff8000, 0x74bf8000},
{"XVMADDWOD_W_H", 0xffff8000, 0x74ae8000},
{"XVMADDWOD_W_HU", 0xffff8000, 0x74b68000},
{"XVMADDWOD_W_HU_H", 0xffff8000, 0x74be8000},
{"XVMADD_B", 0xffff8000, 0x74a80000},
{"XVMADD_D", 0xffff8000, 0x74a98000},
{"XVMADD_H", 0xffff8000, 0x74a88000},
{"XVMADD_W", 0xffff8000, 0x74a90000},
{"XVMAXI_B", 0xffff8000, 0x76900000},
{"XVMAXI_BU", 0xffff8000, 0x76940000},
{"XVMAXI_D", 0xffff8000, 0x76918000},
{"XVMAXI_DU", 0xffff8000, 0x76958000},
{"XVMAXI_H", 0xffff8000, 0x76908000},
{"XVMAXI_HU", 0xffff8000, 0x76948000},
{"XVMAXI_W", 0xffff8000, 0x76910000},
{"XVMAXI_WU", 0xffff8000, 0x76950000},
{"XVMAX_B", 0xffff8000, 0x74700000},
{"XVMAX_BU", 0xffff8000, 0x74740000},
{"XVMAX_D", 0xffff8000, 0x74718000},
{"XVMAX_DU", 0xffff8000, 0x74758000},
{"XVMAX_H", 0xffff8000, 0x74708000},
{"XVMAX_HU", 0xffff8000, 0x74748000},
{"XVMAX_W", 0xffff8000, 0x74710000},
{"XVMAX_WU", 0xffff8000, 0x74750000},
{"XVMINI_B", 0xffff8000, 0x76920000},
{"XVMINI_BU", 0xffff8000, 0x76960000},
{"XVMINI_D", 0xffff8000, 0x76938000},
{"XVMINI_DU", 0xffff8000, 0x76978000},
{"XVMINI_H", 0xffff8000, 0x76928000},
{"XVMINI_HU", 0xffff8000, 0x76968000},
{"XVMINI_W", 0xffff8000, 0x76930000},
{"XVMINI_WU", 0xffff8000, 0x76970000},
{"XVMIN_B", 0xffff8000, 0x74720000},
{"XVMIN_BU", 0xffff8000, 0x74760000},
{"XVMIN_D", 0xffff8000, 0x74738000},
{"XVMIN_DU", 0xffff8000, 0x74778000},
{"XVMIN_H", 0xffff8000, 0x74728000},
{"XVMIN_HU", 0xffff8000, 0x74768000},
{"XVMIN_W", 0xffff8000, 0x74730000},
{"XVMIN_WU", 0xffff8000, 0x74770000},
{"XVMOD_B", 0xffff8000, 0x74e20000},
{"XVMOD_BU", 0xffff8000, 0x74e60000},
{"XVMOD_D", 0xffff8000, 0x74e38000},
{"XVMOD_DU", 0xffff8000, 0x74e78000},
{"XVMOD_H", 0xffff8000, 0x74e28000},
{"XVMOD_HU", 0xffff8000, 0x74e68000},
{"XVMOD_W", 0xffff8000, 0x74e30000},
{"XVMOD_WU", 0xffff8000, 0x74e70000},
{"XVMSKGEZ_B", 0xfffffc00, 0x769c5000},
{"XVMSKLTZ_B", 0xfffffc00, 0x769c4000},
{"XVMSKLTZ_D", 0xfffffc00, 0x769c4c00},
{"XVMSKLTZ_H", 0xfffffc00, 0x769c4400},
{"XVMSKLTZ_W", 0xfffffc00, 0x769c4800},
{"XVMSKNZ_B", 0xfffffc00, 0x769c6000},
{"XVMSUB_B", 0xffff8000, 0x74aa0000},
{"XVMSUB_D", 0xffff8000, 0x74ab8000},
{"XVMSUB_H", 0xffff8000, 0x74aa8000},
{"XVMSUB_W", 0xffff8000, 0x74ab0000},
{"XVMUH_B", 0xffff8000, 0x74860000},
{"XVMUH_BU", 0xffff8000, 0x74880000},
{"XVMUH_D", 0xffff8000, 0x74878000},
{"XVMUH_DU", 0xffff8000, 0x74898000},
{"XVMUH_H", 0xffff8000, 0x74868000},
{"XVMUH_HU", 0xffff8000, 0x74888000},
{"XVMUH_W", 0xffff8000, 0x74870000},
{"XVMUH_WU", 0xffff8000, 0x74890000},
{"XVMULWEV_D_W", 0xffff8000, 0x74910000},
{"XVMULWEV_D_WU", 0xffff8000, 0x74990000},
{"XVMULWEV_D_WU_W", 0xffff8000, 0x74a10000},
{"XVMULWEV_H_B", 0xffff8000, 0x74900000},
{"XVMULWEV_H_BU", 0xffff8000, 0x74980000},
{"XVMULWEV_H_BU_B", 0xffff8000, 0x74a00000},
{"XVMULWEV_Q_D", 0xffff8000, 0x74918000},
{"XVMULWEV_Q_DU", 0xffff8000, 0x74998000},
{"XVMULWEV_Q_DU_D", 0xffff8000, 0x74a18000},
{"XVMULWEV_W_H", 0xffff8000, 0x74908000},
{"XVMULWEV_W_HU", 0xffff8000, 0x74988000},
{"XVMULWEV_W_HU_H", 0xffff8000, 0x74a08000},
{"XVMULWOD_D_W", 0xffff8000, 0x74930000},
{"XVMULWOD_D_WU", 0xffff8000, 0x749b0000},
{"XVMULWOD_D_WU_W", 0xffff8000, 0x74a30000},
{"XVMULWOD_H_B", 0xffff8000, 0x74920000},
{"XVMULWOD_H_BU", 0xffff8000, 0x749a0000},
{"XVMULWOD_H_BU_B", 0xffff8000, 0x74a20000},
{"XVMULWOD_Q_D", 0xffff8000, 0x74938000},
{"XVMULWOD_Q_DU", 0xffff8000, 0x749b8000},
{"XVMULWOD_Q_DU_D", 0xffff8000, 0x74a38000},
{"XVMULWOD_W_H", 0xffff8000, 0x74928000},
{"XVMULWOD_W_HU", 0xffff8000, 0x749a8000},
{"XVMULWOD_W_HU_H", 0xffff8000, 0x74a28000},
{"XVMUL_B", 0xffff8000, 0x74840000},
{"XVMUL_D", 0xffff8000, 0x74858000},
{"XVMUL_H", 0xffff8000, 0x74848000},
{"XVMUL_W", 0xffff8000, 0x74850000},
{"XVNEG_B", 0xfffffc00, 0x769c3000},
{"XVNEG_D", 0xfffffc00, 0x769c3c00},
{"XVNEG_H", 0xfffffc00, 0x769c3400},
{"XVNEG_W", 0xfffffc00, 0x769c3800},
{"XVNORI_B", 0xfffc0000, 0x77dc0000},
{"XVNOR_V", 0xffff8000, 0x75278000},
{"XVORI_B", 0xfffc0000, 0x77d40000},
{"XVORN_V", 0xffff8000, 0x75288000},
{"XVOR_V", 0xffff8000, 0x75268000},
{"XVPACKEV_B", 0xffff8000, 0x75160000},
{"XVPACKEV_D", 0xffff8000, 0x75178000},
{"XVPACKEV_H", 0xffff8000, 0x75168000},
{"XVPACKEV_W", 0xffff8000, 0x75170000},
{"XVPACKOD_B", 0xffff8000, 0x75180000},
{"XVPACKOD_D", 0xffff8000, 0x75198000},
{"XVPACKOD_H", 0xffff8000, 0x75188000},
{"XVPACKOD_W", 0xffff8000, 0x75190000},
{"XVPCNT_B", 0xfffffc00, 0x769c2000},
{"XVPCNT_D", 0xfffffc00, 0x769c2c00},
{"XVPCNT_H", 0xfffffc00, 0x769c2400},
{"XVPCNT_W", 0xfffffc00, 0x769c2800},
{"XVPERMI_D", 0xfffc0000, 0x77e80000},
{"XVPERMI_Q", 0xfffc0000, 0x77ec0000},
{"XVPERMI_W", 0xfffc0000, 0x77e40000},
{"XVPERM_W", 0xffff8000, 0x757d0000},
{"XVPICKEV_B", 0xffff8000, 0x751e0000},
{"XVPICKEV_D", 0xffff8000, 0x751f8000},
{"XVPICKEV_H", 0xffff8000, 0x751e8000},
{"XVPICKEV_W", 0xffff8000, 0x751f0000},
{"XVPICKOD_B", 0xffff8000, 0x75200000},
{"XVPICKOD_D", 0xffff8000, 0x75218000},
{"XVPICKOD_H", 0xffff8000, 0x75208000},
{"XVPICKOD_W", 0xffff8000, 0x75210000},
{"XVPICKVE2GR_D", 0xfffff000, 0x76efe000},
{"XVPICKVE2GR_DU", 0xfffff000, 0x76f3e000},
{"XVPICKVE2GR_W", 0xffffe000, 0x76efc000},
{"XVPICKVE2GR_WU", 0xffffe000, 0x76f3c000},
{"XVPICKVE_D", 0xfffff000, 0x7703e000},
{"XVPICKVE_W", 0xffffe000, 0x7703c000},
{"XVREPL128VEI_B", 0xffffc000, 0x76f78000},
{"XVREPL128VEI_D", 0xfffff800, 0x76f7f000},
{"XVREPL128VEI_H", 0xffffe000, 0x76f7c000},
{"XVREPL128VEI_W", 0xfffff000, 0x76f7e000},
{"XVREPLGR2VR_B", 0xfffffc00, 0x769f0000},
{"XVREPLGR2VR_D", 0xfffffc00, 0x769f0c00},
{"XVREPLGR2VR_H", 0xfffffc00, 0x769f0400},
{"XVREPLGR2VR_W", 0xfffffc00, 0x769f0800},
{"XVREPLVE0_B", 0xfffffc00, 0x77070000},
{"XVREPLVE0_D", 0xfffffc00, 0x7707e000},
{"XVREPLVE0_H", 0xfffffc00, 0x77078000},
{"XVREPLVE0_Q", 0xfffffc00, 0x7707f000},
{"XVREPLVE0_W", 0xfffffc00, 0x7707c000},
{"XVREPLVE_B", 0xffff8000, 0x75220000},
{"XVREPLVE_D", 0xffff8000, 0x75238000},
{"XVREPLVE_H", 0xffff8000, 0x75228000},
{"XVREPLVE_W", 0xffff8000, 0x75230000},
{"XVROTRI_B", 0xffffe000, 0x76a02000},
{"XVROTRI_D", 0xffff0000, 0x76a10000},
{"XVROTRI_H", 0xffffc000, 0x76a04000},
{"XVROTRI_W", 0xffff8000, 0x76a08000},
{"XVROTR_B", 0xffff8000, 0x74ee0000},
{"XVROTR_D", 0xffff8000, 0x74ef8000},
{"XVROTR_H", 0xffff8000, 0x74ee8000},
{"XVROTR_W", 0xffff8000, 0x74ef0000},
{"XVSADD_B", 0xffff8000, 0x74460000},
{"XVSADD_BU", 0xffff8000, 0x744a0000},
{"XVSADD_D", 0xffff8000, 0x74478000},
{"XVSADD_DU", 0xffff8000, 0x744b8000},
{"XVSADD_H", 0xffff8000, 0x74468000},
{"XVSADD_HU", 0xffff8000, 0x744a8000},
{"XVSADD_W", 0xffff8000, 0x74470000},
{"XVSADD_WU", 0xffff8000, 0x744b0000},
{"XVSAT_B", 0xffffe000, 0x77242000},
{"XVSAT_BU", 0xffffe000, 0x77282000},
{"XVSAT_D", 0xffff0000, 0x77250000},
{"XVSAT_DU", 0xffff0000, 0x77290000},
{"XVSAT_H", 0xffffc000, 0x77244000},
{"XVSAT_HU", 0xffffc000, 0x77284000},
{"XVSAT_W", 0xffff8000, 0x77248000},
{"XVSAT_WU", 0xffff8000, 0x77288000},
{"XVSEQI_B", 0xffff8000, 0x76800000},
{"XVSEQI_D", 0xffff8000, 0x76818000},
{"XVSEQI_H", 0xffff8000, 0x76808000},
{"XVSEQI_W", 0xffff8000, 0x76810000},
{"XVSEQ_B", 0xffff8000, 0x74000000},
{"XVSEQ_D", 0xffff8000, 0x74018000},
{"XVSEQ_H", 0xffff8000, 0x74008000},
{"XVSEQ_W", 0xffff8000, 0x74010000},
{"XVSETALLNEZ_B", 0xfffffc18, 0x769cb000},
{"XVSETALLNEZ_D", 0xfffffc18, 0x769cbc00},
{"XVSETALLNEZ_H", 0xfffffc18, 0x769cb400},
{"XVSETALLNEZ_W", 0xfffffc18, 0x769cb800},
{"XVSETANYEQZ_B", 0xfffffc18, 0x769ca000},
{"XVSETANYEQZ_D", 0xfffffc18, 0x769cac00},
{"XVSETANYEQZ_H", 0xfffffc18, 0x769ca400},
{"XVSETANYEQZ_W", 0xfffffc18, 0x769ca800},
{"XVSETEQZ_V", 0xfffffc18, 0x769c9800},
{"XVSETNEZ_V", 0xfffffc18, 0x769c9c00},
{"XVSHUF4I_B", 0xfffc0000, 0x77900000},
{"XVSHUF4I_D", 0xfffc0000, 0x779c0000},
{"XVSHUF4I_H", 0xfffc0000, 0x77940000},
{"XVSHUF4I_W", 0xfffc0000, 0x77980000},
{"XVSHUF_B", 0xfff00000, 0x0d600000},
{"XVSHUF_D", 0xffff8000, 0x757b8000},
{"XVSHUF_H", 0xffff8000, 0x757a8000},
{"XVSHUF_W", 0xffff8000, 0x757b0000},
{"XVSIGNCOV_B", 0xffff8000, 0x752e0000},
{"XVSIGNCOV_D", 0xffff8000, 0x752f8000},
{"XVSIGNCOV_H", 0xffff8000, 0x752e8000},
{"XVSIGNCOV_W", 0xffff8000, 0x752f0000},
{"XVSLEI_B", 0xffff8000, 0x76820000},
{"XVSLEI_BU", 0xffff8000, 0x76840000},
{"XVSLEI_D", 0xffff8000, 0x76838000},
{"XVSLEI_DU", 0xffff8000, 0x76858000},
{"XVSLEI_H", 0xffff8000, 0x76828000},
{"XVSLEI_HU", 0xffff8000, 0x76848000},
{"XVSLEI_W", 0xffff8000, 0x76830000},
{"XVSLEI_WU", 0xffff8000, 0x76850000},
{"XVSLE_B", 0xffff8000, 0x74020000},
{"XVSLE_BU", 0xffff8000, 0x74040000},
{"XVSLE_D", 0xffff8000, 0x74038000},
{"XVSLE_DU", 0xffff8000, 0x74058000},
{"XVSLE_H", 0xffff8000, 0x74028000},
{"XVSLE_HU", 0xffff8000, 0x74048000},
{"XVSLE_W", 0xffff8000, 0x74030000},
{"XVSLE_WU", 0xffff8000, 0x74050000},
{"XVSLLI_B", 0xffffe000, 0x772c2000},
{"XVSLLI_D", 0xffff0000, 0x772d0000},
{"XVSLLI_H", 0xffffc000, 0x772c4000},
{"XVSLLI_W", 0xffff8000, 0x772c8000},
{"XVSLLWIL_DU_WU", 0xffff8000, 0x770c8000},
{"XVSLLWIL_D_W", 0xffff8000, 0x77088000},
{"XVSLLWIL_HU_BU", 0xffffe000, 0x770c2000},
{"XVSLLWIL_H_B", 0xffffe000, 0x77082000},
{"XVSLLWIL_WU_HU", 0xffffc000, 0x770c4000},
{"XVSLLWIL_W_H", 0xffffc000, 0x77084000},
{"XVSLL_B", 0xffff8000, 0x74e80000},
{"XVSLL_D", 0xffff8000, 0x74e98000},
{"XVSLL_H", 0xffff8000, 0x74e88000},
{"XVSLL_W", 0xffff8000, 0x74e90000},
{"XVSLTI_B", 0xffff8000, 0x76860000},
{"XVSLTI_BU", 0xffff8000, 0x76880000},
{"XVSLTI_D", 0xffff8000, 0x76878000},
{"XVSLTI_DU", 0xffff8000, 0x76898000},
{"XVSLTI_H", 0xffff8000, 0x76868000},
{"XVSLTI_HU", 0xffff8000, 0x76888000},
{"XVSLTI_W", 0xffff8000, 0x76870000},
{"XVSLTI_WU", 0xffff8000, 0x76890000},
{"XVSLT_B", 0xffff8000, 0x74060000},
{"XVSLT_BU", 0xffff8000, 0x74080000},
{"XVSLT_D", 0xffff8000, 0x74078000},
{"XVSLT_DU", 0xffff8000, 0x74098000},
{"XVSLT_H", 0xffff8000, 0x74068000},
{"XVSLT_HU", 0xffff8000, 0x74088000},
{"XVSLT_W", 0xffff8000, 0x74070000},
{"XVSLT_WU", 0xffff8000, 0x74090000},
{"XVSRAI_B", 0xffffe000, 0x77342000},
{"XVSRAI_D", 0xffff0000, 0x77350000},
{"XVSRAI_H", 0xffffc000, 0x77344000},
{"XVSRAI_W", 0xffff8000, 0x77348000},
{"XVSRANI_B_H", 0xffffc000, 0x77584000},
{"XVSRANI_D_Q", 0xfffe0000, 0x775a0000},
{"XVSRANI_H_W", 0xffff8000, 0x77588000},
{"XVSRANI_W_D", 0xffff0000, 0x77590000},
{"XVSRAN_B_H", 0xffff8000, 0x74f68000},
{"XVSRAN_H_W", 0xffff8000, 0x74f70000},
{"XVSRAN_W_D", 0xffff8000, 0x74f78000},
{"XVSRARI_B", 0xffffe000, 0x76a82000},
{"XVSRARI_D", 0xffff0000, 0x76a90000},
{"XVSRARI_H", 0xffffc000, 0x76a84000},
{"XVSRARI_W", 0xffff8000, 0x76a88000},
{"XVSRARNI_B_H", 0xffffc000, 0x775c4000},
{"XVSRARNI_D_Q", 0xfffe0000, 0x775e0000},
{"XVSRARNI_H_W", 0xffff8000, 0x775c8000},
{"XVSRARNI_W_D", 0xffff0000, 0x775d0000},
{"XVSRARN_B_H", 0xffff8000, 0x74fa8000},
{"XVSRARN_H_W", 0xffff8000, 0x74fb0000},
{"XVSRARN_W_D", 0xffff8000, 0x74fb8000},
{"XVSRAR_B", 0xffff8000, 0x74f20000},
{"XVSRAR_D", 0xffff8000, 0x74f38000},
{"XVSRAR_H", 0xffff8000, 0x74f28000},
{"XVSRAR_W", 0xffff8000, 0x74f30000},
{"XVSRA_B", 0xffff8000, 0x74ec0000},
{"XVSRA_D", 0xffff8000, 0x74ed8000},
{"XVSRA_H", 0xffff8000, 0x74ec8000},
{"XVSRA_W", 0xffff8000, 0x74ed0000},
{"XVSRLI_B", 0xffffe000, 0x77302000},
{"XVSRLI_D", 0xffff0000, 0x77310000},
{"XVSRLI_H", 0xffffc000, 0x77304000},
{"XVSRLI_W", 0xffff8000, 0x77308000},
{"XVSRLNI_B_H", 0xffffc000, 0x77404000},
{"XVSRLNI_D_Q", 0xfffe0000, 0x77420000},
{"XVSRLNI_H_W", 0xffff8000, 0x77408000},
{"XVSRLNI_W_D", 0xffff0000, 0x77410000},
{"XVSRLN_B_H", 0xffff8000, 0x74f48000},
{"XVSRLN_H_W", 0xffff8000, 0x74f50000},
{"XVSRLN_W_D", 0xffff8000, 0x74f58000},
{"XVSRLRI_B", 0xffffe000, 0x76a42000},
{"XVSRLRI_D", 0xffff0000, 0x76a50000},
{"XVSRLRI_H", 0xffffc000, 0x76a44000},
{"XVSRLRI_W", 0xffff8000, 0x76a48000},
{"XVSRLRNI_B_H", 0xffffc000, 0x77444000},
{"XVSRLRNI_D_Q", 0xfffe0000, 0x77460000},
{"XVSRLRNI_H_W", 0xffff8000, 0x77448000},
{"XVSRLRNI_W_D", 0xffff0000, 0x77450000},
{"XVSRLRN_B_H", 0xffff8000, 0x74f88000},
{"XVSRLRN_H_W", 0xffff8000, 0x74f90000},
{"XVSRLRN_W_D", 0xffff8000, 0x74f98000},
{"XVSRLR_B", 0xffff8000, 0x74f00000},
{"XVSRLR_D", 0xffff8000, 0x74f18000},
{"XVSRLR_H", 0xffff8000, 0x74f08000},
{"XVSRLR_W", 0xffff8000, 0x74f10000},
{"XVSRL_B", 0xffff8000, 0x74ea0000},
{"XVSRL_D", 0xffff8000, 0x74eb8000},
{"XVSRL_H", 0xffff8000, 0x74ea8000},
{"XVSRL_W", 0xffff8000, 0x74eb0000},
{"XVSSRANI_BU_H", 0xffffc000, 0x77644000},
{"XVSSRANI_B_H", 0xffffc000, 0x77604000},
{"XVSSRANI_DU_Q", 0xfffe0000, 0x77660000},
{"XVSSRANI_D_Q", 0xfffe0000, 0x77620000},
{"XVSSRANI_HU_W", 0xffff8000, 0x77648000},
{"XVSSRANI_H_W", 0xffff8000, 0x77608000},
{"XVSSRANI_WU_D", 0xffff0000, 0x77650000},
{"XVSSRANI_W_D", 0xffff0000, 0x77610000},
{"XVSSRAN_BU_H", 0xffff8000, 0x75068000},
{"XVSSRAN_B_H", 0xffff8000, 0x74fe8000},
{"XVSSRAN_HU_W", 0xffff8000, 0x75070000},
{"XVSSRAN_H_W", 0xffff8000, 0x74ff0000},
{"XVSSRAN_WU_D", 0xffff8000, 0x75078000},
{"XVSSRAN_W_D", 0xffff8000, 0x74ff8000},
{"XVSSRARNI_BU_H", 0xffffc000, 0x776c4000},
{"XVSSRARNI_B_H", 0xffffc000, 0x77684000},
{"XVSSRARNI_DU_Q", 0xfffe0000, 0x776e0000},
{"XVSSRARNI_D_Q", 0xfffe0000, 0x776a0000},
{"XVSSRARNI_HU_W", 0xffff8000, 0x776c8000},
{"XVSSRARNI_H_W", 0xffff8000, 0x77688000},
{"XVSSRARNI_WU_D", 0xffff0000, 0x776d0000},
{"XVSSRARNI_W_D", 0xffff0000, 0x77690000},
{"XVSSRARN_BU_H", 0xffff8000, 0x750a8000},
{"XVSSRARN_B_H", 0xffff8000, 0x75028000},
{"XVSSRARN_HU_W", 0xffff8000, 0x750b0000},
{"XVSSRARN_H_W", 0xffff8000, 0x75030000},
{"XVSSRARN_WU_D", 0xffff8000, 0x750b8000},
{"XVSSRARN_W_D", 0xffff8000, 0x75038000},
{"XVSSRLNI_BU_H", 0xffffc000, 0x774c4000},
{"XVSSRLNI_B_H", 0xffffc000, 0x77484000},
{"XVSSRLNI_DU_Q", 0xfffe0000, 0x774e0000},
{"XVSSRLNI_D_Q", 0xfffe0000, 0x774a0000},
{"XVSSRLNI_HU_W", 0xffff8000, 0x774c8000},
{"XVSSRLNI_H_W", 0xffff8000, 0x77488000},
{"XVSSRLNI_WU_D", 0xffff0000, 0x774d0000},
{"XVSSRLNI_W_D", 0xffff0000, 0x77490000},
{"XVSSRLN_BU_H", 0xffff8000, 0x75048000},
{"XVSSRLN_B_H", 0xffff8000, 0x74fc8000},
{"XVSSRLN_HU_W", 0xffff8000, 0x75050000},
{"XVSSRLN_H_W", 0xffff8000, 0x74fd0000},
{"XVSSRLN_WU_D", 0xffff8000, 0x75058000},
{"XVSSRLN_W_D", 0xffff8000, 0x74fd8000},
{"XVSSRLRNI_BU_H", 0xffffc000, 0x77544000},
{"XVSSRLRNI_B_H", 0xffffc000, 0x77504000},
{"XVSSRLRNI_DU_Q", 0xfffe0000, 0x77560000},
{"XVSSRLRNI_D_Q", 0xfffe0000, 0x77520000},
{"XVSSRLRNI_HU_W", 0xffff8000, 0x77548000},
{"XVSSRLRNI_H_W", 0xffff8000, 0x77508000},
{"XVSSRLRNI_WU_D", 0xffff0000, 0x77550000},
{"XVSSRLRNI_W_D", 0xffff0000, 0x77510000},
{"XVSSRLRN_BU_H", 0xffff8000, 0x75088000},
{"XVSSRLRN_B_H", 0xffff8000, 0x75008000},
{"XVSSRLRN_HU_W", 0xffff8000, 0x75090000},
{"XVSSRLRN_H_W", 0xffff8000, 0x75010000},
{"XVSSRLRN_WU_D", 0xffff8000, 0x75098000},
{"XVSSRLRN_W_D", 0xffff8000, 0x75018000},
{"XVSSUB_B", 0xffff8000, 0x74480000},
{"XVSSUB_BU", 0xffff8000, 0x744c0000},
{"XVSSUB_D", 0xffff8000, 0x74498000},
{"XVSSUB_DU", 0xffff8000, 0x744d8000},
{"XVSSUB_H", 0xffff8000, 0x74488000},
{"XVSSUB_HU", 0xffff8000, 0x744c8000},
{"XVSSUB_W", 0xffff8000, 0x74490000},
{"XVSSUB_WU", 0xffff8000, 0x744d0000},
{"XVST", 0xffc00000, 0x2cc00000},
{"XVSTELM_B", 0xff800000, 0x33800000},
{"XVSTELM_D", 0xfff00000, 0x33100000},
{"XVSTELM_H", 0xffc00000, 0x33400000},
{"XVSTELM_W", 0xffe00000, 0x33200000},
{"XVSTX", 0xffff8000, 0x384c0000},
{"XVSUBI_BU", 0xffff8000, 0x768c0000},
{"XVSUBI_DU", 0xffff8000, 0x768d8000},
{"XVSUBI_HU", 0xffff8000, 0x768c8000},
{"XVSUBI_WU", 0xffff8000, 0x768d0000},
{"XVSUBWEV_D_W", 0xffff8000, 0x74210000},
{"XVSUBWEV_D_WU", 0xffff8000, 0x74310000},
{"XVSUBWEV_H_B", 0xffff8000, 0x74200000},
{"XVSUBWEV_H_BU", 0xffff8000, 0x74300000},
{"XVSUBWEV_Q_D", 0xffff8000, 0x74218000},
{"XVSUBWEV_Q_DU", 0xffff8000, 0x74318000},
{"XVSUBWEV_W_H", 0xffff8000, 0x74208000},
{"XVSUBWEV_W_HU", 0xffff8000, 0x74308000},
{"XVSUBWOD_D_W", 0xffff8000, 0x74250000},
{"XVSUBWOD_D_WU", 0xffff8000, 0x74350000},
{"XVSUBWOD_H_B", 0xffff8000, 0x74240000},
{"XVSUBWOD_H_BU", 0xffff8000, 0x74340000},
{"XVSUBWOD_Q_D", 0xffff8000, 0x74258000},
{"XVSUBWOD_Q_DU", 0xffff8000, 0x74358000},
{"XVSUBWOD_W_H", 0xffff8000, 0x74248000},
{"XVSUBWOD_W_HU", 0xffff8000, 0x74348000},
{"XVSUB_B", 0xffff8000, 0x740c0000},
{"XVSUB_D", 0xffff8000, 0x740d8000},
{"XVSUB_H", 0xffff8000, 0x740c8000},
{"XVSUB_Q", 0xffff8000, 0x752d8000},
{"XVSUB_W", 0xffff8000, 0x740d0000},
{"XVXORI_B", 0xfffc0000, 0x77d80000},
{"XVXOR_V", 0xffff8000, 0x75270000},
