package model
