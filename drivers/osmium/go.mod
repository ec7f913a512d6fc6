module osmium

go 1.19
