----------------------------- MODULE MCU_Rewrite ----------------------------
EXTENDS MC_Rewrite, MCU_Universes
=============================================================================
