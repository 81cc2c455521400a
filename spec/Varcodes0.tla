----------------------------- MODULE Varcodes0 -----------------------------
(* The text form of codes, for modules that have other names of their own     *)
V == INSTANCE Varcodes
FormatCode(c) == V!Format(c)
=============================================================================
