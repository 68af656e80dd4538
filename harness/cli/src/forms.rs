//! characters that are not in a normalization form (up to U+07FF; a letter and one character)
pub const ONE: [&[u8]; 4] = [
    b"\xcd\x80\xcd\x81\xcd\x83\xcd\x84\xcd\xb4\xcd\xbe\xce\x87",
    b"\xc2\xa0\xc2\xa8\xc2\xaa\xc2\xaf\xc2\xb2\xc2\xb3\xc2\xb4\xc2\xb5\xc2\xb8\xc2\xb9\xc2\xba\xc2\xbc\xc2\xbd\xc2\xbe\xc4\xb2\xc4\xb3\xc4\xbf\xc5\x80\xc5\x89\xc5\xbf\xc7\x84\xc7\x85\xc7\x86\xc7\x87\xc7\x88\xc7\x89\xc7\x8a\xc7\x8b\xc7\x8c\xc7\xb1\xc7\xb2\xc7\xb3\xca\xb0\xca\xb1\xca\xb2\xca\xb3\xca\xb4\xca\xb5\xca\xb6\xca\xb7\xca\xb8\xcb\x98\xcb\x99\xcb\x9a\xcb\x9b\xcb\x9c\xcb\x9d\xcb\xa0\xcb\xa1\xcb\xa2\xcb\xa3\xcb\xa4\xcd\x80\xcd\x81\xcd\x83\xcd\x84\xcd\xb4\xcd\xba\xcd\xbe\xce\x84\xce\x85\xce\x87\xcf\x90\xcf\x91\xcf\x92\xcf\x93\xcf\x94\xcf\x95\xcf\x96\xcf\xb0\xcf\xb1\xcf\xb2\xcf\xb4\xcf\xb5\xcf\xb9\xd6\x87\xd9\xb5\xd9\xb6\xd9\xb7\xd9\xb8",
    b"\xc3\x80\xc3\x81\xc3\x82\xc3\x83\xc3\x84\xc3\x85\xc3\x87\xc3\x88\xc3\x89\xc3\x8a\xc3\x8b\xc3\x8c\xc3\x8d\xc3\x8e\xc3\x8f\xc3\x91\xc3\x92\xc3\x93\xc3\x94\xc3\x95\xc3\x96\xc3\x99\xc3\x9a\xc3\x9b\xc3\x9c\xc3\x9d\xc3\xa0\xc3\xa1\xc3\xa2\xc3\xa3\xc3\xa4\xc3\xa5\xc3\xa7\xc3\xa8\xc3\xa9\xc3\xaa\xc3\xab\xc3\xac\xc3\xad\xc3\xae\xc3\xaf\xc3\xb1\xc3\xb2\xc3\xb3\xc3\xb4\xc3\xb5\xc3\xb6\xc3\xb9\xc3\xba\xc3\xbb\xc3\xbc\xc3\xbd\xc3\xbf\xc4\x80\xc4\x81\xc4\x82\xc4\x83\xc4\x84\xc4\x85\xc4\x86\xc4\x87\xc4\x88\xc4\x89\xc4\x8a\xc4\x8b\xc4\x8c\xc4\x8d\xc4\x8e\xc4\x8f\xc4\x92\xc4\x93\xc4\x94\xc4\x95\xc4\x96\xc4\x97\xc4\x98\xc4\x99\xc4\x9a\xc4\x9b\xc4\x9c\xc4\x9d\xc4\x9e\xc4\x9f\xc4\xa0\xc4\xa1\xc4\xa2\xc4\xa3\xc4\xa4\xc4\xa5\xc4\xa8\xc4\xa9\xc4\xaa\xc4\xab\xc4\xac\xc4\xad\xc4\xae\xc4\xaf\xc4\xb0\xc4\xb4\xc4\xb5\xc4\xb6\xc4\xb7\xc4\xb9\xc4\xba\xc4\xbb\xc4\xbc\xc4\xbd\xc4\xbe\xc5\x83\xc5\x84\xc5\x85\xc5\x86\xc5\x87\xc5\x88\xc5\x8c\xc5\x8d\xc5\x8e\xc5\x8f\xc5\x90\xc5\x91\xc5\x94\xc5\x95\xc5\x96\xc5\x97\xc5\x98\xc5\x99\xc5\x9a\xc5\x9b\xc5\x9c\xc5\x9d\xc5\x9e\xc5\x9f\xc5\xa0\xc5\xa1\xc5\xa2\xc5\xa3\xc5\xa4\xc5\xa5\xc5\xa8\xc5\xa9\xc5\xaa\xc5\xab\xc5\xac\xc5\xad\xc5\xae\xc5\xaf\xc5\xb0\xc5\xb1\xc5\xb2\xc5\xb3\xc5\xb4\xc5\xb5\xc5\xb6\xc5\xb7\xc5\xb8\xc5\xb9\xc5\xba\xc5\xbb\xc5\xbc\xc5\xbd\xc5\xbe\xc6\xa0\xc6\xa1\xc6\xaf\xc6\xb0\xc7\x8d\xc7\x8e\xc7\x8f\xc7\x90\xc7\x91\xc7\x92\xc7\x93\xc7\x94\xc7\x95\xc7\x96\xc7\x97\xc7\x98\xc7\x99\xc7\x9a\xc7\x9b\xc7\x9c\xc7\x9e\xc7\x9f\xc7\xa0\xc7\xa1\xc7\xa2\xc7\xa3\xc7\xa6\xc7\xa7\xc7\xa8\xc7\xa9\xc7\xaa\xc7\xab\xc7\xac\xc7\xad\xc7\xae\xc7\xaf\xc7\xb0\xc7\xb4\xc7\xb5\xc7\xb8\xc7\xb9\xc7\xba\xc7\xbb\xc7\xbc\xc7\xbd\xc7\xbe\xc7\xbf\xc8\x80\xc8\x81\xc8\x82\xc8\x83\xc8\x84\xc8\x85\xc8\x86\xc8\x87\xc8\x88\xc8\x89\xc8\x8a\xc8\x8b\xc8\x8c\xc8\x8d\xc8\x8e\xc8\x8f\xc8\x90\xc8\x91\xc8\x92\xc8\x93\xc8\x94\xc8\x95\xc8\x96\xc8\x97\xc8\x98\xc8\x99\xc8\x9a\xc8\x9b\xc8\x9e\xc8\x9f\xc8\xa6\xc8\xa7\xc8\xa8\xc8\xa9\xc8\xaa\xc8\xab\xc8\xac\xc8\xad\xc8\xae\xc8\xaf\xc8\xb0\xc8\xb1\xc8\xb2\xc8\xb3\xcd\x80\xcd\x81\xcd\x83\xcd\x84\xcd\xb4\xcd\xbe\xce\x85\xce\x86\xce\x87\xce\x88\xce\x89\xce\x8a\xce\x8c\xce\x8e\xce\x8f\xce\x90\xce\xaa\xce\xab\xce\xac\xce\xad\xce\xae\xce\xaf\xce\xb0\xcf\x8a\xcf\x8b\xcf\x8c\xcf\x8d\xcf\x8e\xcf\x93\xcf\x94\xd0\x80\xd0\x81\xd0\x83\xd0\x87\xd0\x8c\xd0\x8d\xd0\x8e\xd0\x99\xd0\xb9\xd1\x90\xd1\x91\xd1\x93\xd1\x97\xd1\x9c\xd1\x9d\xd1\x9e\xd1\xb6\xd1\xb7\xd3\x81\xd3\x82\xd3\x90\xd3\x91\xd3\x92\xd3\x93\xd3\x96\xd3\x97\xd3\x9a\xd3\x9b\xd3\x9c\xd3\x9d\xd3\x9e\xd3\x9f\xd3\xa2\xd3\xa3\xd3\xa4\xd3\xa5\xd3\xa6\xd3\xa7\xd3\xaa\xd3\xab\xd3\xac\xd3\xad\xd3\xae\xd3\xaf\xd3\xb0\xd3\xb1\xd3\xb2\xd3\xb3\xd3\xb4\xd3\xb5\xd3\xb8\xd3\xb9\xd8\xa2\xd8\xa3\xd8\xa4\xd8\xa5\xd8\xa6\xdb\x80\xdb\x82\xdb\x93",
    b"\xc2\xa0\xc2\xa8\xc2\xaa\xc2\xaf\xc2\xb2\xc2\xb3\xc2\xb4\xc2\xb5\xc2\xb8\xc2\xb9\xc2\xba\xc2\xbc\xc2\xbd\xc2\xbe\xc3\x80\xc3\x81\xc3\x82\xc3\x83\xc3\x84\xc3\x85\xc3\x87\xc3\x88\xc3\x89\xc3\x8a\xc3\x8b\xc3\x8c\xc3\x8d\xc3\x8e\xc3\x8f\xc3\x91\xc3\x92\xc3\x93\xc3\x94\xc3\x95\xc3\x96\xc3\x99\xc3\x9a\xc3\x9b\xc3\x9c\xc3\x9d\xc3\xa0\xc3\xa1\xc3\xa2\xc3\xa3\xc3\xa4\xc3\xa5\xc3\xa7\xc3\xa8\xc3\xa9\xc3\xaa\xc3\xab\xc3\xac\xc3\xad\xc3\xae\xc3\xaf\xc3\xb1\xc3\xb2\xc3\xb3\xc3\xb4\xc3\xb5\xc3\xb6\xc3\xb9\xc3\xba\xc3\xbb\xc3\xbc\xc3\xbd\xc3\xbf\xc4\x80\xc4\x81\xc4\x82\xc4\x83\xc4\x84\xc4\x85\xc4\x86\xc4\x87\xc4\x88\xc4\x89\xc4\x8a\xc4\x8b\xc4\x8c\xc4\x8d\xc4\x8e\xc4\x8f\xc4\x92\xc4\x93\xc4\x94\xc4\x95\xc4\x96\xc4\x97\xc4\x98\xc4\x99\xc4\x9a\xc4\x9b\xc4\x9c\xc4\x9d\xc4\x9e\xc4\x9f\xc4\xa0\xc4\xa1\xc4\xa2\xc4\xa3\xc4\xa4\xc4\xa5\xc4\xa8\xc4\xa9\xc4\xaa\xc4\xab\xc4\xac\xc4\xad\xc4\xae\xc4\xaf\xc4\xb0\xc4\xb2\xc4\xb3\xc4\xb4\xc4\xb5\xc4\xb6\xc4\xb7\xc4\xb9\xc4\xba\xc4\xbb\xc4\xbc\xc4\xbd\xc4\xbe\xc4\xbf\xc5\x80\xc5\x83\xc5\x84\xc5\x85\xc5\x86\xc5\x87\xc5\x88\xc5\x89\xc5\x8c\xc5\x8d\xc5\x8e\xc5\x8f\xc5\x90\xc5\x91\xc5\x94\xc5\x95\xc5\x96\xc5\x97\xc5\x98\xc5\x99\xc5\x9a\xc5\x9b\xc5\x9c\xc5\x9d\xc5\x9e\xc5\x9f\xc5\xa0\xc5\xa1\xc5\xa2\xc5\xa3\xc5\xa4\xc5\xa5\xc5\xa8\xc5\xa9\xc5\xaa\xc5\xab\xc5\xac\xc5\xad\xc5\xae\xc5\xaf\xc5\xb0\xc5\xb1\xc5\xb2\xc5\xb3\xc5\xb4\xc5\xb5\xc5\xb6\xc5\xb7\xc5\xb8\xc5\xb9\xc5\xba\xc5\xbb\xc5\xbc\xc5\xbd\xc5\xbe\xc5\xbf\xc6\xa0\xc6\xa1\xc6\xaf\xc6\xb0\xc7\x84\xc7\x85\xc7\x86\xc7\x87\xc7\x88\xc7\x89\xc7\x8a\xc7\x8b\xc7\x8c\xc7\x8d\xc7\x8e\xc7\x8f\xc7\x90\xc7\x91\xc7\x92\xc7\x93\xc7\x94\xc7\x95\xc7\x96\xc7\x97\xc7\x98\xc7\x99\xc7\x9a\xc7\x9b\xc7\x9c\xc7\x9e\xc7\x9f\xc7\xa0\xc7\xa1\xc7\xa2\xc7\xa3\xc7\xa6\xc7\xa7\xc7\xa8\xc7\xa9\xc7\xaa\xc7\xab\xc7\xac\xc7\xad\xc7\xae\xc7\xaf\xc7\xb0\xc7\xb1\xc7\xb2\xc7\xb3\xc7\xb4\xc7\xb5\xc7\xb8\xc7\xb9\xc7\xba\xc7\xbb\xc7\xbc\xc7\xbd\xc7\xbe\xc7\xbf\xc8\x80\xc8\x81\xc8\x82\xc8\x83\xc8\x84\xc8\x85\xc8\x86\xc8\x87\xc8\x88\xc8\x89\xc8\x8a\xc8\x8b\xc8\x8c\xc8\x8d\xc8\x8e\xc8\x8f\xc8\x90\xc8\x91\xc8\x92\xc8\x93\xc8\x94\xc8\x95\xc8\x96\xc8\x97\xc8\x98\xc8\x99\xc8\x9a\xc8\x9b\xc8\x9e\xc8\x9f\xc8\xa6\xc8\xa7\xc8\xa8\xc8\xa9\xc8\xaa\xc8\xab\xc8\xac\xc8\xad\xc8\xae\xc8\xaf\xc8\xb0\xc8\xb1\xc8\xb2\xc8\xb3\xca\xb0\xca\xb1\xca\xb2\xca\xb3\xca\xb4\xca\xb5\xca\xb6\xca\xb7\xca\xb8\xcb\x98\xcb\x99\xcb\x9a\xcb\x9b\xcb\x9c\xcb\x9d\xcb\xa0\xcb\xa1\xcb\xa2\xcb\xa3\xcb\xa4\xcd\x80\xcd\x81\xcd\x83\xcd\x84\xcd\xb4\xcd\xba\xcd\xbe\xce\x84\xce\x85\xce\x86\xce\x87\xce\x88\xce\x89\xce\x8a\xce\x8c\xce\x8e\xce\x8f\xce\x90\xce\xaa\xce\xab\xce\xac\xce\xad\xce\xae\xce\xaf\xce\xb0\xcf\x8a\xcf\x8b\xcf\x8c\xcf\x8d\xcf\x8e\xcf\x90\xcf\x91\xcf\x92\xcf\x93\xcf\x94\xcf\x95\xcf\x96\xcf\xb0\xcf\xb1\xcf\xb2\xcf\xb4\xcf\xb5\xcf\xb9\xd0\x80\xd0\x81\xd0\x83\xd0\x87\xd0\x8c\xd0\x8d\xd0\x8e\xd0\x99\xd0\xb9\xd1\x90\xd1\x91\xd1\x93\xd1\x97\xd1\x9c\xd1\x9d\xd1\x9e\xd1\xb6\xd1\xb7\xd3\x81\xd3\x82\xd3\x90\xd3\x91\xd3\x92\xd3\x93\xd3\x96\xd3\x97\xd3\x9a\xd3\x9b\xd3\x9c\xd3\x9d\xd3\x9e\xd3\x9f\xd3\xa2\xd3\xa3\xd3\xa4\xd3\xa5\xd3\xa6\xd3\xa7\xd3\xaa\xd3\xab\xd3\xac\xd3\xad\xd3\xae\xd3\xaf\xd3\xb0\xd3\xb1\xd3\xb2\xd3\xb3\xd3\xb4\xd3\xb5\xd3\xb8\xd3\xb9\xd6\x87\xd8\xa2\xd8\xa3\xd8\xa4\xd8\xa5\xd8\xa6\xd9\xb5\xd9\xb6\xd9\xb7\xd9\xb8\xdb\x80\xdb\x82\xdb\x93",
];
pub const TWO: [&[u8]; 4] = [
    b"\x3c\xcc\xb8\x3d\xcc\xb8\x3e\xcc\xb8\x41\xcc\x80\x41\xcc\x81\x41\xcc\x82\x41\xcc\x83\x41\xcc\x84\x41\xcc\x86\x41\xcc\x87\x41\xcc\x88\x41\xcc\x89\x41\xcc\x8a\x41\xcc\x8c\x41\xcc\x8f\x41\xcc\x91\x41\xcc\xa3\x41\xcc\xa5\x41\xcc\xa8\x42\xcc\x87\x42\xcc\xa3\x42\xcc\xb1\x43\xcc\x81\x43\xcc\x82\x43\xcc\x87\x43\xcc\x8c\x43\xcc\xa7\x44\xcc\x87\x44\xcc\x8c\x44\xcc\xa3\x44\xcc\xa7\x44\xcc\xad\x44\xcc\xb1\x45\xcc\x80\x45\xcc\x81\x45\xcc\x82\x45\xcc\x83\x45\xcc\x84\x45\xcc\x86\x45\xcc\x87\x45\xcc\x88\x45\xcc\x89\x45\xcc\x8c\x45\xcc\x8f\x45\xcc\x91\x45\xcc\xa3\x45\xcc\xa7\x45\xcc\xa8\x45\xcc\xad\x45\xcc\xb0\x46\xcc\x87\x47\xcc\x81\x47\xcc\x82\x47\xcc\x84\x47\xcc\x86\x47\xcc\x87\x47\xcc\x8c\x47\xcc\xa7\x48\xcc\x82\x48\xcc\x87\x48\xcc\x88\x48\xcc\x8c\x48\xcc\xa3\x48\xcc\xa7\x48\xcc\xae\x49\xcc\x80\x49\xcc\x81\x49\xcc\x82\x49\xcc\x83\x49\xcc\x84\x49\xcc\x86\x49\xcc\x87\x49\xcc\x88\x49\xcc\x89\x49\xcc\x8c\x49\xcc\x8f\x49\xcc\x91\x49\xcc\xa3\x49\xcc\xa8\x49\xcc\xb0\x4a\xcc\x82\x4b\xcc\x81\x4b\xcc\x8c\x4b\xcc\xa3\x4b\xcc\xa7\x4b\xcc\xb1\x4c\xcc\x81\x4c\xcc\x8c\x4c\xcc\xa3\x4c\xcc\xa7\x4c\xcc\xad\x4c\xcc\xb1\x4d\xcc\x81\x4d\xcc\x87\x4d\xcc\xa3\x4e\xcc\x80\x4e\xcc\x81\x4e\xcc\x83\x4e\xcc\x87\x4e\xcc\x8c\x4e\xcc\xa3\x4e\xcc\xa7\x4e\xcc\xad\x4e\xcc\xb1\x4f\xcc\x80\x4f\xcc\x81\x4f\xcc\x82\x4f\xcc\x83\x4f\xcc\x84\x4f\xcc\x86\x4f\xcc\x87\x4f\xcc\x88\x4f\xcc\x89\x4f\xcc\x8b\x4f\xcc\x8c\x4f\xcc\x8f\x4f\xcc\x91\x4f\xcc\x9b\x4f\xcc\xa3\x4f\xcc\xa8\x50\xcc\x81\x50\xcc\x87\x52\xcc\x81\x52\xcc\x87\x52\xcc\x8c\x52\xcc\x8f\x52\xcc\x91\x52\xcc\xa3\x52\xcc\xa7\x52\xcc\xb1\x53\xcc\x81\x53\xcc\x82\x53\xcc\x87\x53\xcc\x8c\x53\xcc\xa3\x53\xcc\xa6\x53\xcc\xa7\x54\xcc\x87\x54\xcc\x8c\x54\xcc\xa3\x54\xcc\xa6\x54\xcc\xa7\x54\xcc\xad\x54\xcc\xb1\x55\xcc\x80\x55\xcc\x81\x55\xcc\x82\x55\xcc\x83\x55\xcc\x84\x55\xcc\x86\x55\xcc\x88\x55\xcc\x89\x55\xcc\x8a\x55\xcc\x8b\x55\xcc\x8c\x55\xcc\x8f\x55\xcc\x91\x55\xcc\x9b\x55\xcc\xa3\x55\xcc\xa4\x55\xcc\xa8\x55\xcc\xad\x55\xcc\xb0\x56\xcc\x83\x56\xcc\xa3\x57\xcc\x80\x57\xcc\x81\x57\xcc\x82\x57\xcc\x87\x57\xcc\x88\x57\xcc\xa3\x58\xcc\x87\x58\xcc\x88\x59\xcc\x80\x59\xcc\x81\x59\xcc\x82\x59\xcc\x83\x59\xcc\x84\x59\xcc\x87\x59\xcc\x88\x59\xcc\x89\x59\xcc\xa3\x5a\xcc\x81\x5a\xcc\x82\x5a\xcc\x87\x5a\xcc\x8c\x5a\xcc\xa3\x5a\xcc\xb1\x61\xcc\x80\x61\xcc\x81\x61\xcc\x82\x61\xcc\x83\x61\xcc\x84\x61\xcc\x86\x61\xcc\x87\x61\xcc\x88\x61\xcc\x89\x61\xcc\x8a\x61\xcc\x8c\x61\xcc\x8f\x61\xcc\x91\x61\xcc\xa3\x61\xcc\xa5\x61\xcc\xa8\x62\xcc\x87\x62\xcc\xa3\x62\xcc\xb1\x63\xcc\x81\x63\xcc\x82\x63\xcc\x87\x63\xcc\x8c\x63\xcc\xa7\x64\xcc\x87\x64\xcc\x8c\x64\xcc\xa3\x64\xcc\xa7\x64\xcc\xad\x64\xcc\xb1\x65\xcc\x80\x65\xcc\x81\x65\xcc\x82\x65\xcc\x83\x65\xcc\x84\x65\xcc\x86\x65\xcc\x87\x65\xcc\x88\x65\xcc\x89\x65\xcc\x8c\x65\xcc\x8f\x65\xcc\x91\x65\xcc\xa3\x65\xcc\xa7\x65\xcc\xa8\x65\xcc\xad\x65\xcc\xb0\x66\xcc\x87\x67\xcc\x81\x67\xcc\x82\x67\xcc\x84\x67\xcc\x86\x67\xcc\x87\x67\xcc\x8c\x67\xcc\xa7\x68\xcc\x82\x68\xcc\x87\x68\xcc\x88\x68\xcc\x8c\x68\xcc\xa3\x68\xcc\xa7\x68\xcc\xae\x68\xcc\xb1\x69\xcc\x80\x69\xcc\x81\x69\xcc\x82\x69\xcc\x83\x69\xcc\x84\x69\xcc\x86\x69\xcc\x88\x69\xcc\x89\x69\xcc\x8c\x69\xcc\x8f\x69\xcc\x91\x69\xcc\xa3\x69\xcc\xa8\x69\xcc\xb0\x6a\xcc\x82\x6a\xcc\x8c\x6b\xcc\x81\x6b\xcc\x8c\x6b\xcc\xa3\x6b\xcc\xa7\x6b\xcc\xb1\x6c\xcc\x81\x6c\xcc\x8c\x6c\xcc\xa3\x6c\xcc\xa7\x6c\xcc\xad\x6c\xcc\xb1\x6d\xcc\x81\x6d\xcc\x87\x6d\xcc\xa3\x6e\xcc\x80\x6e\xcc\x81\x6e\xcc\x83\x6e\xcc\x87\x6e\xcc\x8c\x6e\xcc\xa3\x6e\xcc\xa7\x6e\xcc\xad\x6e\xcc\xb1\x6f\xcc\x80\x6f\xcc\x81\x6f\xcc\x82\x6f\xcc\x83\x6f\xcc\x84\x6f\xcc\x86\x6f\xcc\x87\x6f\xcc\x88\x6f\xcc\x89\x6f\xcc\x8b\x6f\xcc\x8c\x6f\xcc\x8f\x6f\xcc\x91\x6f\xcc\x9b\x6f\xcc\xa3\x6f\xcc\xa8\x70\xcc\x81\x70\xcc\x87\x72\xcc\x81\x72\xcc\x87\x72\xcc\x8c\x72\xcc\x8f\x72\xcc\x91\x72\xcc\xa3\x72\xcc\xa7\x72\xcc\xb1\x73\xcc\x81\x73\xcc\x82\x73\xcc\x87\x73\xcc\x8c\x73\xcc\xa3\x73\xcc\xa6\x73\xcc\xa7\x74\xcc\x87\x74\xcc\x88\x74\xcc\x8c\x74\xcc\xa3\x74\xcc\xa6\x74\xcc\xa7\x74\xcc\xad\x74\xcc\xb1\x75\xcc\x80\x75\xcc\x81\x75\xcc\x82\x75\xcc\x83\x75\xcc\x84\x75\xcc\x86\x75\xcc\x88\x75\xcc\x89\x75\xcc\x8a\x75\xcc\x8b\x75\xcc\x8c\x75\xcc\x8f\x75\xcc\x91\x75\xcc\x9b\x75\xcc\xa3\x75\xcc\xa4\x75\xcc\xa8\x75\xcc\xad\x75\xcc\xb0\x76\xcc\x83\x76\xcc\xa3\x77\xcc\x80\x77\xcc\x81\x77\xcc\x82\x77\xcc\x87\x77\xcc\x88\x77\xcc\x8a\x77\xcc\xa3\x78\xcc\x87\x78\xcc\x88\x79\xcc\x80\x79\xcc\x81\x79\xcc\x82\x79\xcc\x83\x79\xcc\x84\x79\xcc\x87\x79\xcc\x88\x79\xcc\x89\x79\xcc\x8a\x79\xcc\xa3\x7a\xcc\x81\x7a\xcc\x82\x7a\xcc\x87\x7a\xcc\x8c\x7a\xcc\xa3\x7a\xcc\xb1",
    b"\x3c\xcc\xb8\x3d\xcc\xb8\x3e\xcc\xb8\x41\xcc\x80\x41\xcc\x81\x41\xcc\x82\x41\xcc\x83\x41\xcc\x84\x41\xcc\x86\x41\xcc\x87\x41\xcc\x88\x41\xcc\x89\x41\xcc\x8a\x41\xcc\x8c\x41\xcc\x8f\x41\xcc\x91\x41\xcc\xa3\x41\xcc\xa5\x41\xcc\xa8\x42\xcc\x87\x42\xcc\xa3\x42\xcc\xb1\x43\xcc\x81\x43\xcc\x82\x43\xcc\x87\x43\xcc\x8c\x43\xcc\xa7\x44\xcc\x87\x44\xcc\x8c\x44\xcc\xa3\x44\xcc\xa7\x44\xcc\xad\x44\xcc\xb1\x45\xcc\x80\x45\xcc\x81\x45\xcc\x82\x45\xcc\x83\x45\xcc\x84\x45\xcc\x86\x45\xcc\x87\x45\xcc\x88\x45\xcc\x89\x45\xcc\x8c\x45\xcc\x8f\x45\xcc\x91\x45\xcc\xa3\x45\xcc\xa7\x45\xcc\xa8\x45\xcc\xad\x45\xcc\xb0\x46\xcc\x87\x47\xcc\x81\x47\xcc\x82\x47\xcc\x84\x47\xcc\x86\x47\xcc\x87\x47\xcc\x8c\x47\xcc\xa7\x48\xcc\x82\x48\xcc\x87\x48\xcc\x88\x48\xcc\x8c\x48\xcc\xa3\x48\xcc\xa7\x48\xcc\xae\x49\xcc\x80\x49\xcc\x81\x49\xcc\x82\x49\xcc\x83\x49\xcc\x84\x49\xcc\x86\x49\xcc\x87\x49\xcc\x88\x49\xcc\x89\x49\xcc\x8c\x49\xcc\x8f\x49\xcc\x91\x49\xcc\xa3\x49\xcc\xa8\x49\xcc\xb0\x4a\xcc\x82\x4b\xcc\x81\x4b\xcc\x8c\x4b\xcc\xa3\x4b\xcc\xa7\x4b\xcc\xb1\x4c\xcc\x81\x4c\xcc\x8c\x4c\xcc\xa3\x4c\xcc\xa7\x4c\xcc\xad\x4c\xcc\xb1\x4d\xcc\x81\x4d\xcc\x87\x4d\xcc\xa3\x4e\xcc\x80\x4e\xcc\x81\x4e\xcc\x83\x4e\xcc\x87\x4e\xcc\x8c\x4e\xcc\xa3\x4e\xcc\xa7\x4e\xcc\xad\x4e\xcc\xb1\x4f\xcc\x80\x4f\xcc\x81\x4f\xcc\x82\x4f\xcc\x83\x4f\xcc\x84\x4f\xcc\x86\x4f\xcc\x87\x4f\xcc\x88\x4f\xcc\x89\x4f\xcc\x8b\x4f\xcc\x8c\x4f\xcc\x8f\x4f\xcc\x91\x4f\xcc\x9b\x4f\xcc\xa3\x4f\xcc\xa8\x50\xcc\x81\x50\xcc\x87\x52\xcc\x81\x52\xcc\x87\x52\xcc\x8c\x52\xcc\x8f\x52\xcc\x91\x52\xcc\xa3\x52\xcc\xa7\x52\xcc\xb1\x53\xcc\x81\x53\xcc\x82\x53\xcc\x87\x53\xcc\x8c\x53\xcc\xa3\x53\xcc\xa6\x53\xcc\xa7\x54\xcc\x87\x54\xcc\x8c\x54\xcc\xa3\x54\xcc\xa6\x54\xcc\xa7\x54\xcc\xad\x54\xcc\xb1\x55\xcc\x80\x55\xcc\x81\x55\xcc\x82\x55\xcc\x83\x55\xcc\x84\x55\xcc\x86\x55\xcc\x88\x55\xcc\x89\x55\xcc\x8a\x55\xcc\x8b\x55\xcc\x8c\x55\xcc\x8f\x55\xcc\x91\x55\xcc\x9b\x55\xcc\xa3\x55\xcc\xa4\x55\xcc\xa8\x55\xcc\xad\x55\xcc\xb0\x56\xcc\x83\x56\xcc\xa3\x57\xcc\x80\x57\xcc\x81\x57\xcc\x82\x57\xcc\x87\x57\xcc\x88\x57\xcc\xa3\x58\xcc\x87\x58\xcc\x88\x59\xcc\x80\x59\xcc\x81\x59\xcc\x82\x59\xcc\x83\x59\xcc\x84\x59\xcc\x87\x59\xcc\x88\x59\xcc\x89\x59\xcc\xa3\x5a\xcc\x81\x5a\xcc\x82\x5a\xcc\x87\x5a\xcc\x8c\x5a\xcc\xa3\x5a\xcc\xb1\x61\xcc\x80\x61\xcc\x81\x61\xcc\x82\x61\xcc\x83\x61\xcc\x84\x61\xcc\x86\x61\xcc\x87\x61\xcc\x88\x61\xcc\x89\x61\xcc\x8a\x61\xcc\x8c\x61\xcc\x8f\x61\xcc\x91\x61\xcc\xa3\x61\xcc\xa5\x61\xcc\xa8\x62\xcc\x87\x62\xcc\xa3\x62\xcc\xb1\x63\xcc\x81\x63\xcc\x82\x63\xcc\x87\x63\xcc\x8c\x63\xcc\xa7\x64\xcc\x87\x64\xcc\x8c\x64\xcc\xa3\x64\xcc\xa7\x64\xcc\xad\x64\xcc\xb1\x65\xcc\x80\x65\xcc\x81\x65\xcc\x82\x65\xcc\x83\x65\xcc\x84\x65\xcc\x86\x65\xcc\x87\x65\xcc\x88\x65\xcc\x89\x65\xcc\x8c\x65\xcc\x8f\x65\xcc\x91\x65\xcc\xa3\x65\xcc\xa7\x65\xcc\xa8\x65\xcc\xad\x65\xcc\xb0\x66\xcc\x87\x67\xcc\x81\x67\xcc\x82\x67\xcc\x84\x67\xcc\x86\x67\xcc\x87\x67\xcc\x8c\x67\xcc\xa7\x68\xcc\x82\x68\xcc\x87\x68\xcc\x88\x68\xcc\x8c\x68\xcc\xa3\x68\xcc\xa7\x68\xcc\xae\x68\xcc\xb1\x69\xcc\x80\x69\xcc\x81\x69\xcc\x82\x69\xcc\x83\x69\xcc\x84\x69\xcc\x86\x69\xcc\x88\x69\xcc\x89\x69\xcc\x8c\x69\xcc\x8f\x69\xcc\x91\x69\xcc\xa3\x69\xcc\xa8\x69\xcc\xb0\x6a\xcc\x82\x6a\xcc\x8c\x6b\xcc\x81\x6b\xcc\x8c\x6b\xcc\xa3\x6b\xcc\xa7\x6b\xcc\xb1\x6c\xcc\x81\x6c\xcc\x8c\x6c\xcc\xa3\x6c\xcc\xa7\x6c\xcc\xad\x6c\xcc\xb1\x6d\xcc\x81\x6d\xcc\x87\x6d\xcc\xa3\x6e\xcc\x80\x6e\xcc\x81\x6e\xcc\x83\x6e\xcc\x87\x6e\xcc\x8c\x6e\xcc\xa3\x6e\xcc\xa7\x6e\xcc\xad\x6e\xcc\xb1\x6f\xcc\x80\x6f\xcc\x81\x6f\xcc\x82\x6f\xcc\x83\x6f\xcc\x84\x6f\xcc\x86\x6f\xcc\x87\x6f\xcc\x88\x6f\xcc\x89\x6f\xcc\x8b\x6f\xcc\x8c\x6f\xcc\x8f\x6f\xcc\x91\x6f\xcc\x9b\x6f\xcc\xa3\x6f\xcc\xa8\x70\xcc\x81\x70\xcc\x87\x72\xcc\x81\x72\xcc\x87\x72\xcc\x8c\x72\xcc\x8f\x72\xcc\x91\x72\xcc\xa3\x72\xcc\xa7\x72\xcc\xb1\x73\xcc\x81\x73\xcc\x82\x73\xcc\x87\x73\xcc\x8c\x73\xcc\xa3\x73\xcc\xa6\x73\xcc\xa7\x74\xcc\x87\x74\xcc\x88\x74\xcc\x8c\x74\xcc\xa3\x74\xcc\xa6\x74\xcc\xa7\x74\xcc\xad\x74\xcc\xb1\x75\xcc\x80\x75\xcc\x81\x75\xcc\x82\x75\xcc\x83\x75\xcc\x84\x75\xcc\x86\x75\xcc\x88\x75\xcc\x89\x75\xcc\x8a\x75\xcc\x8b\x75\xcc\x8c\x75\xcc\x8f\x75\xcc\x91\x75\xcc\x9b\x75\xcc\xa3\x75\xcc\xa4\x75\xcc\xa8\x75\xcc\xad\x75\xcc\xb0\x76\xcc\x83\x76\xcc\xa3\x77\xcc\x80\x77\xcc\x81\x77\xcc\x82\x77\xcc\x87\x77\xcc\x88\x77\xcc\x8a\x77\xcc\xa3\x78\xcc\x87\x78\xcc\x88\x79\xcc\x80\x79\xcc\x81\x79\xcc\x82\x79\xcc\x83\x79\xcc\x84\x79\xcc\x87\x79\xcc\x88\x79\xcc\x89\x79\xcc\x8a\x79\xcc\xa3\x7a\xcc\x81\x7a\xcc\x82\x7a\xcc\x87\x7a\xcc\x8c\x7a\xcc\xa3\x7a\xcc\xb1",
    b"",
    b"",
];
/// not assigned in Unicode 15
pub const NONE: &[u8] = b"\xcd\xb8\xcd\xb9\xce\x80\xce\x81\xce\x82\xce\x83\xce\x8b\xce\x8d\xce\xa2\xd4\xb0\xd5\x97\xd5\x98\xd6\x8b\xd6\x8c\xd6\x90\xd7\x88\xd7\x89\xd7\x8a\xd7\x8b\xd7\x8c\xd7\x8d\xd7\x8e\xd7\x8f\xd7\xab\xd7\xac\xd7\xad\xd7\xae\xd7\xb5\xd7\xb6\xd7\xb7\xd7\xb8\xd7\xb9\xd7\xba\xd7\xbb\xd7\xbc\xd7\xbd\xd7\xbe\xd7\xbf\xdc\x8e\xdd\x8b\xdd\x8c\xde\xb2\xde\xb3\xde\xb4\xde\xb5\xde\xb6\xde\xb7\xde\xb8\xde\xb9\xde\xba\xde\xbb\xde\xbc\xde\xbd\xde\xbe\xde\xbf\xdf\xbb\xdf\xbc";
