d=[[
#include x]]--[[
#include x
]]d
