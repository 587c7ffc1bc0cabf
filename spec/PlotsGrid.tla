------------------------------ MODULE PlotsGrid ------------------------------
EXTENDS Plots
Stop == UNCHANGED vars
===============================================================================
