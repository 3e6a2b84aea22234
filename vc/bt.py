import bytesvc, bytesmore
if __name__ == "__main__": bytesvc.main()
