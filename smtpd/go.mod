module github.com/siebenmann/smtpd

go 1.17
